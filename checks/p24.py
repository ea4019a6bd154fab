"""What is written to a text sample profile, the reader takes back: sections, row formats, places, radix and width."""
import re
import ir
import wire
from frontend import Node
from wire import Wire, K, show, short
from core import Result

LEVEL = "other"
OUT = {"fprintf": 1, "FPrintF": 1, "fputs": 0, "fputc": 0, "putc": 0}
IN = {"fscanf": 1}
DIGITS = {"x": 16, "u": 20, "d": 20}
LEN = {"": 4, "h": 2, "hh": 1, "l": 8, "ll": 8, "z": 8, "j": 8, "t": 8, "L": 8, "q": 8}
PART = {"first": 0, "second": 1, "from": 0, "to": 1, "begin": 0, "end": 1}


def lit(t):
    """the literal behind a format argument"""
    while isinstance(t, tuple) and t:
        if t[0] == 'str':
            return t[1]
        if t[0] == 'k' and 0 <= t[1] < 256:
            return chr(t[1])
        if t[0] in ('call', 'new') and len(t[-1]) == 1:
            t = t[-1][0]
            continue
        return None
    return None


def segs(f):
    """literal text and conversions (flags, width, length, letter) of a format"""
    out, pos = [], 0
    for m in re.finditer(r"%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L|q)?([a-zA-Z]))", f):
        if m.start() > pos:
            out.append(f[pos:m.start()])
        out.append("%" if m.group(0) == "%%" else m.groups())
        pos = m.end()
    if pos < len(f):
        out.append(f[pos:])
    return out


def norm(ss):
    """adjacent text joined, every run of white space one blank"""
    out = []
    for s in ss:
        if isinstance(s, str) and out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)
    return [re.sub(r"\s+", " ", s) if isinstance(s, str) else s for s in out]


def sets_of(items):
    for i in items:
        if i[0] == 'set':
            yield i
        for x in i:
            if isinstance(x, list):
                yield from sets_of(x)


def bare(t):
    """without the marks of loop-carried values"""
    if isinstance(t, tuple):
        if t and t[0] == 'lv':
            return bare(t[1])
        return tuple(bare(x) for x in t)
    return t


def value(t, call, v):
    """what a condition is worth when the call returns v"""
    if t == call:
        return v
    if t[0] == 'k':
        return t[1]
    if t[0] == 'op':
        a = [value(x, call, v) for x in t[2]]
        if None in a:
            return None
        if t[1] == '!':
            return not a[0]
        if t[1] == '-' and len(a) == 1:
            return -a[0]
        if t[1] == 'phi':
            return a[1] if a[0] else a[2]
        if t[1] in wire.OPS and len(a) == 2:
            return wire.OPS[t[1]](*a)
    return None


def uses(t, call):
    return t == call or isinstance(t, tuple) and any(uses(x, call) for x in t)


class Side:
    """a function as print/scan groups and row loops, in order"""

    def __init__(self, r, F, names, prog):
        self.r, self.F, self.names = r, F, names
        self.w = Wire(prog, {})
        reach = Wire(prog, {n: ('x', 'x') for n in names}).reach
        self.w.reach = {G for G in reach if prog.in_repo(G)} if hasattr(prog, "in_repo") else reach
        self.items = self.w.run(F)

    def active(self, items):
        """does it print, scan or loop over either"""
        for i in items:
            if i[0] == 'sink' and short(i[1]) in self.names:
                return True
            if any(isinstance(x, list) and self.active(x) for x in i):
                return True
        return False

    def flat(self, items, scans):
        out = []
        for i in items:
            if i[0] == 'sink' and short(i[1]) in self.names:
                a = list(i[3])
                k = self.names[short(i[1])]
                f = lit(a[k]) if len(a) > k else None
                if f is None:
                    if k == 1 or not a:
                        self.r.add("format|%s" % short(i[1]), i[5].where(i[4]), "%s: what is %s here is not a fixed format" % (
                            i[5].q, "read" if scans else "written"))
                        continue
                    a, f = [None, a[0]], "%s"
                vals = a[k + 1:] if k == 1 else [] if lit(i[3][k]) is not None else [i[3][k]]
                ss = segs(f) if k == 1 else [f]
                term = ('call', i[1], i[2], i[3])
                out.append(['io', ss, list(vals), [(i[4], i[5], len(vals), term)]])
            elif i[0] == 'loop':
                if self.active(i[3]):
                    out.append(['rows', i[2], self.flat(i[3], scans), i])
            elif i[0] == 'set':
                out.append(['set', i[1], i[2], i])
            elif i[0] == 'alt':
                out.extend(self.branch(i, out, scans))
        merged = []
        for o in out:
            if o[0] == 'io' and merged and merged[-1][0] == 'io':
                merged[-1] = ['io', merged[-1][1] + o[1], merged[-1][2] + o[2], merged[-1][3] + o[3]]
            else:
                merged.append(o)
        return merged

    def branch(self, i, before, scans):
        A, B = self.flat(i[2], scans), self.flat(i[3], scans)
        busy = [s for s in (A, B) if s]
        if not scans:
            if not busy:
                return []
            if len(busy) == 2:
                return [['odd', i]]
            if len(i) > 7 and i[6 if not A else 7] == 'ret':
                self.gives_up(i, 1 if not A else 2, "written")
                return busy[0]
            return [['maybe', busy[0], i]]
        for o in [x for x in self.pending(before) if uses(i[1], x[3])]:
            node, G, n, call = o
            self.done.add(id(o))
            self.r.count(obligations=1)
            good = value(i[1], call, n)
            bad = [value(i[1], call, v) for v in range(-1, n)]
            if good is None or None in bad or any(bool(b) == bool(good) for b in bad):
                self.r.add("scan|%s" % G.q, G.where(node), "%s: text that does not hold all %d values is taken as if it did" % (G.q, n))
                return A if good is None or good else B
            ok, fail = (A, B) if good else (B, A)
            if fail:
                self.r.add("scanfail|%s" % G.q, G.where(node), "%s: goes on after a row that could not be read" % G.q)
            return ok
        if not busy:
            return []
        if len(busy) == 1 and len(i) > 7 and i[6 if not A else 7] in ('ret', 'break'):
            self.gives_up(i, 1 if not A else 2, "read")
            return busy[0]
        return [['maybe', busy[0], i]] if len(busy) == 1 else [['odd', i]]

    def gives_up(self, i, side, what):
        """leaving before the last section is a failure"""
        s, F = i[4], i[5]
        self.r.count(obligations=1)
        if s.k == "IfStmt" and len(s.ch) > side and isinstance(s.ch[side], Node):
            for n in wire.walk1(s.ch[side]):
                if n.k == "ReturnStmt" and n.ch and isinstance(n.ch[0], Node) and ir.cval(n.ch[0]) == 1:
                    self.r.add("early|%s" % F.q, F.where(n), "%s: succeeds without every section %s" % (F.q, what))

    done = set()

    def pending(self, before):
        for o in reversed(before):
            if o[0] == 'io':
                for x in o[3]:
                    yield x
                return


def sections(seq):
    """(header group, rows, what else stands between) for every row loop; what follows the last one"""
    out, head, odd = [], None, []
    for o in seq:
        if o[0] == 'io':
            if head is not None:
                odd.append(head)
            head = o
        elif o[0] == 'rows':
            out.append((head, o, odd))
            head, odd = None, []
        elif o[0] in ('odd', 'maybe'):
            odd.append(o)
    return out, ([head] if head else []) + odd


def path(t, loop, cont):
    """the parts of an entry a printed value is"""
    p = []
    while isinstance(t, tuple) and t[0] == 'm':
        p.append(t[2])
        t = t[1]
    if t[0] in ('elem', 'at', 'iter') and bare(t[1]) == bare(cont):
        return tuple(reversed(p))
    return None


def size_of(t):
    """the container whose number of entries t is"""
    if isinstance(t, tuple) and t and t[0] == 'size':
        return t[1]
    return None


def conv(r, c, reading, node, F, width):
    """radix of a conversion, None if it cannot hold the value"""
    fl, wd, prec, ln, k = c
    k = {"X": "x", "d": "d", "u": "u", "x": "x", "i": "i" if reading else "d", "v": "d"}.get(k)
    if k is None or k == "i":
        return None
    if reading:
        if LEN[ln or ""] < 8 or width is not None and width < 8 or wd and int(wd) < DIGITS[k]:
            return "narrow"
        if k == "d":
            return "signed"
    return {"x": 16}.get(k, 10)


def check(prog, tier):
    r = Result("the text sample profile is written and read as the same sections, rows, radix, width and places")
    r.explanation = ("Writer and reader of text sample profiles are evaluated symbolically into the sequence of sections (count line, then one row per entry). "
                     "Every section of one must have its counterpart in the other at the same position: same container, count line equal to the number of entries written, "
                     "same literals and radix, every printed part scanned into the same part of the key or added to the value, full 64-bit conversions, and every failed or short scan refused.")
    fw = [F for F in prog.functions if F.q.endswith("TextSampleReaderWriter::Write") and F.body]
    fr = [F for F in prog.functions if F.q.endswith("TextSampleReaderWriter::Append") and F.body]
    r.require(len(fw) == 1 and len(fr) == 1, "writer and reader of text sample profiles")
    fw, fr = fw[0], fr[0]
    Side.done = set()
    W, R = Side(r, fw, OUT, prog), Side(r, fr, IN, prog)
    narrowed(r, W)
    narrowed(r, R)
    ws, wrest = sections(W.flat(W.items, False))
    rs, rrest = sections(R.flat(R.items, True))
    r.require(ws or rs, "sections of a text sample profile")
    r.count(sections=len(ws))
    for o in rrest:
        if o[0] == 'io':
            r.add("reader extra", o[3][0][1].where(o[3][0][0]), "%s: reads something after the last section that is not written" % fr.q)
    if len(ws) != len(rs):
        r.add("sections", fr.where(), "%s reads %d sections of rows, %s writes %d" % (fr.q, len(rs), fw.q, len(ws)))
    seen = set()
    for (wh, wr, wodd), (rh, rr, rodd) in zip(ws, rs):
        wl, rl = wr[3], rr[3]
        ww, rw = wl[-1].where(wl[-2]), rl[-1].where(rl[-2])
        r.count(obligations=4)
        for o, at, F in [(o, ww, fw) for o in wodd] + [(o, rw, fr) for o in rodd]:
            r.add("between|%s" % F.q, at, "%s: %s before a section of rows that the %s does not match" % (
                F.q, "something conditional" if o[0] != 'io' else "something extra", "reader" if F is fw else "writer"))
        cont = None
        el = [x for x in subterms(wr[2]) if x[0] == 'elem' or x[0] == 'at']
        if el:
            cont = bare(el[0][1])
        # the count line
        if wh is None or rh is None:
            r.add("count line", ww if wh is None else rw, "%s: no count line before the rows of a section" % (fw.q if wh is None else fr.q))
            continue
        if len(wh[2]) != 1 or size_of(bare(wh[2][0])) is None:
            r.add("count|w", ww, "%s: the count line is not the number of entries" % fw.q)
        elif cont is not None and size_of(bare(wh[2][0])) != cont:
            r.add("count|w", ww, "%s: the count line gives the entries of %s, the rows are those of %s" % (
                fw.q, show(size_of(bare(wh[2][0]))), show(cont)))
        if wr[1] is not None and bare(wr[1]) not in [bare(x) for x in wh[2]] + [('size', cont)]:
            r.add("rows|w", ww, "%s: writes %s rows after a count line of %s" % (fw.q, show(wr[1]), ", ".join(show(x) for x in wh[2])))
        if len(rh[2]) != 1 or rr[1] is None or bare(rr[1]) != bare(rh[2][0]):
            r.add("rows|r", rw, "%s: the number of rows read (%s) is not the one the count line gives" % (fr.q, show(rr[1]) if rr[1] else "?"))
        fmt(r, wh, rh)
        narrow_counter(r, rl, fr)
        # one row
        wio = [o for o in wr[2] if o[0] == 'io']
        rio = [o for o in rr[2] if o[0] == 'io']
        bad = [o for o in wr[2] + rr[2] if o[0] in ('odd', 'maybe', 'rows')]
        if len(wio) != 1 or len(rio) != 1 or bad:
            inr = any(o in rr[2] for o in bad)
            r.add("row", rw if inr else ww, "%s: not every entry is %s as one row" % (fr.q if inr else fw.q, "read" if inr else "written"))
            continue
        wio, rio = wio[0], rio[0]
        fmt(r, wio, rio)
        st = [o for o in rr[2] if o[0] == 'set' and bare(o[1])[0] == 'at']
        if len(st) != 1:
            r.add("store", rw, "%s: a row read is stored %d times" % (fr.q, len(st)))
            continue
        loc, val = bare(st[0][1]), bare(st[0][2])
        at = st[0][3][-1].where(st[0][3][-2])
        if cont is not None and loc[1] != cont:
            r.add("container", at, "%s: rows of %s are read into %s" % (fr.q, show(cont), show(loc[1])))
        seen.add(loc[1])
        kparts = loc[2][2] if loc[2][0] == 'new' else None
        added = val[2] if val[0] == 'op' and val[1] == '+' else ()
        if not (len(added) == 2 and loc in added):
            r.add("added", at, "%s: the count of a row is not added to the count already held" % fr.q)
            continue
        inc = added[1] if added[0] == loc else added[0]
        if len(wio[2]) != len(rio[2]):
            continue
        used = set()
        for a, b in zip(wio[2], rio[2]):
            p = path(a, wl, cont)
            b = bare(b)
            r.count(obligations=1)
            used.add(b)
            if p is None:
                r.add("value", ww, "%s: writes %s, which is not part of the entry" % (fw.q, show(a)))
                continue
            if p[0] == 'second':
                ok = inc == b
            elif len(p) == 1:
                ok = loc[2] == b
            else:
                ok = kparts is not None and PART.get(p[1]) is not None and len(kparts) > PART[p[1]] and kparts[PART[p[1]]] == b
            if not ok:
                r.add("place|%s|%s" % (show(cont), ".".join(p)), at, "%s: what is written as %s of an entry of %s is not read back as that" % (
                    fr.q, ".".join(p), show(cont)))
        for t, what in [(inc, "count")] + [(x, "key") for x in (kparts or (loc[2],))]:
            if t not in used:
                r.add("unread|%s" % what, at, "%s: the %s of an entry of %s is not one that was read" % (fr.q, what, show(loc[1])))
        r.sample("%s: %s" % (show(cont) if cont else "?", "".join(s if isinstance(s, str) else "%" + (s[4] or "") for s in wio[1])))
    unchecked(r, R)
    r.count(containers=len(seen))
    r.require(r.counts.get("obligations", 0) >= 10, "rows of a text sample profile")
    r.assumptions = ["the C library's printf and scanf families and absl's FPrintF convert as documented",
                     "addresses and counts are 64-bit values of the entries' own type"]
    return r


def subterms(o):
    if isinstance(o, tuple):
        if o and isinstance(o[0], str):
            yield o
        for x in o:
            yield from subterms(x)
    elif isinstance(o, list):
        for x in o:
            if isinstance(x, (tuple, list)):
                yield from subterms(x)


def fmt(r, w, rd):
    """the two formats agree"""
    a, b = norm(w[1]), norm(rd[1])
    wn, wF = w[3][0][:2]
    rn, rF = rd[3][0][:2]
    while a and isinstance(a[-1], str) and not a[-1].strip():
        a.pop()
    while b and isinstance(b[-1], str) and not b[-1].strip():
        b.pop()
    if w[1] and not (isinstance(w[1][-1], str) and w[1][-1][-1:].isspace()):
        r.add("end|%s" % wF.q, wF.where(wn), "%s: a line written is not separated from the next" % wF.q)
    txt = lambda s: "".join(x if isinstance(x, str) else "%" + (x[3] or "") + x[4] for x in s)
    a = [x.strip() if isinstance(x, str) else x for x in a]
    b = [x.strip() if isinstance(x, str) else x for x in b]
    r.count(obligations=1)
    if [x if isinstance(x, str) else 0 for x in a] != [x if isinstance(x, str) else 0 for x in b]:
        r.add("text|%s" % txt(a), rF.where(rn), "%s: a line written as '%s' is read as '%s'" % (rF.q, txt(a), txt(b)))
        return
    widths = []
    for node, F, n, call in rd[3]:
        for x in node.ch[-n:] if n else ():
            t = (x.t or "").rstrip(" *").strip()
            widths.append({"unsigned long": 8, "long": 8, "unsigned long long": 8, "unsigned int": 4, "int": 4, "short": 2, "unsigned short": 2}.get(t))
    outs = []
    for node, F, n, call in w[3]:
        outs += [(x, short(node.f)) for x in node.ch[-n:]] if n else []
    j = 0
    for x, y in zip(a, b):
        if isinstance(x, str):
            continue
        p = conv(r, x, False, wn, wF, None)
        q = conv(r, y, True, rn, rF, widths[j] if j < len(widths) else None)
        if j < len(outs) and outs[j][1] != "FPrintF" and LEN[x[3] or ""] < 8:
            r.add("width|w", wF.where(wn), "%s: a value is written with fewer bits than it has ('%s')" % (wF.q, txt(a)))
        if x[2]:
            r.add("precision|w", wF.where(wn), "%s: '%s' limits what is written" % (wF.q, txt(a)))
        j += 1
        if q == "narrow":
            r.add("width|r|%s" % txt(b), rF.where(rn), "%s: a value is read with fewer bits than it has ('%s')" % (rF.q, txt(b)))
        elif q == "signed":
            r.add("sign|r|%s" % txt(b), rF.where(rn), "%s: a value above the signed range is not read back ('%s')" % (rF.q, txt(b)))
        elif p is None or p != q:
            r.add("radix|%s" % txt(b), rF.where(rn), "%s: written in base %s and read in base %s ('%s', '%s')" % (rF.q, p, q, txt(a), txt(b)))


def narrowed(r, side):
    """no 64-bit value is cut on its way between the file and the tables"""
    for F in [side.F] + [G for G in side.w.reach if G is not side.F and G.body is not None and G.file == side.F.file]:
        for n in F.walk():
            if n.k.endswith("CastExpr") and n.ch and isinstance(n.ch[0], Node) and n.ch[0].get("s") in ("u64", "s64") and \
                    n.get("s") in ("s32", "u32", "s16", "u16", "s8", "u8", "f32") and ir.cval(n) is None:
                x = ir.strip(n.ch[0])
                r.count(obligations=1)
                if x.k == "UnaryExprOrTypeTraitExpr" or ir.cval(x) is not None:
                    continue
                r.add("narrow|%s" % F.q, F.where(n), "%s: a value of 64 bits is cut to %s" % (F.q, n.s[1:]))


def narrow_counter(r, loop, fr):
    """the rows are counted in as many bits as the count line has"""
    node, F = loop[-2], loop[-1]
    c = (list(node.ch) + [None] * 2)[1] if node.k == "ForStmt" else node.ch[-1] if node.k == "DoStmt" else node.ch[0]
    if not isinstance(c, Node):
        return
    for n in wire.walk1(c):
        if n.k == "BinaryOperator" and n.op in ("<", "<=", "!=", ">", ">="):
            s = [ir.strip(x) for x in n.ch]
            ty = [x.get("s") or "" for x in s]
            r.count(obligations=1)
            if sorted(x in ("u64", "s64") for x in ty) == [False, True]:
                i = 0 if ty[1] in ("u64", "s64") else 1
                if ir.cval(s[i]) is None and ty[i] in ("s32", "u32", "s16", "u16", "s8", "u8"):
                    r.add("counter|%s" % F.q, F.where(n), "%s: rows are counted in %s bits, their number has 64" % (F.q, ty[i][1:]))


def unchecked(r, R):
    """scans whose result decides nothing"""
    def conds(items):
        for i in items:
            if i[0] == 'alt':
                yield i[1]
            if i[0] == 'loop' and i[2] is not None:
                yield i[2]
            for x in i:
                if isinstance(x, list):
                    yield from conds(x)

    def sinks(items):
        for i in items:
            if i[0] == 'sink' and short(i[1]) in R.names:
                yield i
            for x in i:
                if isinstance(x, list):
                    yield from sinks(x)
    cs = list(conds(R.items))
    for s in sinks(R.items):
        r.count(scans=1)
        if not any(uses(c, ('call', s[1], s[2], s[3])) for c in cs):
            r.add("unchecked|%s" % s[5].q, s[5].where(s[4]), "%s: whether the values could be read is not looked at" % s[5].q)
