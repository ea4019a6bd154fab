"""Range lists (.debug_ranges, .debug_rnglists) yield the standard's address ranges."""
import vn
from vn import K, atom, add, mul, Interp
from core import Result
from dwarf import *
from checks.p02 import agree
from checks.p03 import Script, fld, logic, nonzero

RLE = {"end_of_list": 0, "base_addressx": 1, "startx_endx": 2, "startx_length": 3, "offset_pair": 4,
       "base_address": 5, "start_end": 6, "start_length": 7}


class Lists(Model):
    """reader model + a log of the ranges appended to the output"""

    def __init__(self, script, **kw):
        super().__init__(**kw)
        self.s = script
        self.pushed = []
        self.extra = self.more

    def more(self, ip, n, fname, av, st, fr):
        x = self.s.extra(ip, n, fname, av, st, fr)
        if x is not None:
            return x
        if fname == RD + "ReadAddress" and ('adr', av[0]) in self.s.const:
            return K(self.s.const[('adr', av[0])])
        last = short(n)
        if last == "make_pair" or (n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "pair<" in (n.f or "")):
            return atom(('pair',) + tuple(av[:2]))
        if last in ("push_back", "emplace_back") and "vector" in (n.f or ""):
            v = av[0]
            if len(av) == 2:
                v = atom(('pair', av[0], av[1]))
            p = v
            for _ in range(4):
                if p[0] == 'lin' and len(p[2]) == 1:
                    a = p[2][0][0]
                    if a[0] == 'ctor' and len(a[2]) == 2:
                        p = atom(('pair',) + a[2])
                    elif a[0] == 'ctor' and len(a[2]) == 1:
                        p = a[2][0]
                    elif a[0] == 'ilist' and len(a[2]) == 2:
                        p = atom(('pair',) + a[2])
            a = p[2][0][0] if p[0] == 'lin' and len(p[2]) == 1 else (None,)
            self.pushed.append((a[1], a[2]) if a[0] == 'pair' else (v, None))
            return atom(('void',))
        return None


def check(prog, tier):
    r = Result("abstract interpretation of the range-list readers over scripted lists: each entry kind is followed by an "
               "offset pair and the end marker, so the ranges reported, the base address left behind and the position "
               "after the entry are all compared with the standard")
    ms = methods(prog, "AddressRangeList")
    enum = {c["n"]: int(c["v"]) for e in prog.enums.values() for c in e["consts"] if c["n"].startswith("DW_RLE_")}
    for k, v in RLE.items():
        r.count(obligations=1)
        if enum.get("DW_RLE_" + k, v) != v:
            r.add("DW_RLE|" + k, "util/symbolize/dwarf2enums.h:1", "range list entry %s has code %d, the standard's is %d" % (k, enum["DW_RLE_" + k], v))
    old_lists(prog, r, ms)
    new_lists(prog, r, ms)
    headers(prog, r, ms)
    routes(prog, r, ms)
    r.require(r.counts.get("obligations", 0) > 40, "range lists")
    r.assumptions = ["lists lie inside their section", "the fixed-width, LEB128 and address reads themselves are the subject of P05",
                     "empty ranges may be reported or dropped"]
    return r


def compare(r, F, what, got, want, done):
    r.count(obligations=1)
    ok = len(got) == len(want) and all(len(g) == 2 and g[1] is not None and agree(g[0], w[0], None) and agree(g[1], w[1], None)
                                       for g, w in zip(got, want))
    if not ok:
        r.add("%s|%s" % (F.q, what), F.where(), "%s: a list with %s yields %s, the standard says %s" % (
            F.q, what, [tuple(vn.show_val(x)[:70] if x else '?' for x in g) for g in got][:3],
            [tuple(vn.show_val(x)[:70] for x in w) for w in want]))
    elif not done:
        r.add("%s|%s end" % (F.q, what), F.where(), "%s: a list with %s is not read up to its end marker" % (F.q, what))


def decide(s, end_names=("length_",)):
    """lists lie inside their section; reported ranges are not empty"""
    def leaf(v):
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            if a[0] == 'op' and len(a) == 4:
                inside = lambda x: x[0] == 'lin' and any(t[0] in ('init', 'load') and str(t[3][-1]).endswith("length_") for t, c in x[2])
                if a[1] in ('<', '<='):
                    if inside(a[3]) and not inside(a[2]):
                        return True
                    if inside(a[2]) and not inside(a[3]):
                        return False
                if a[1] in ('==', '!='):
                    if a[2][0] == 'k' and a[3][0] == 'k':
                        return (a[2] == a[3]) == (a[1] == '==')
                    return a[1] == '!='      # two different symbolic addresses
        if nonzero(v) or v[0] == 'lin':
            return True
        return None
    return lambda v: logic(v, leaf)


def old_lists(prog, r, ms):
    F = [f for f in ms if len(f.params) == 3 and any((n.get("f") or "") == RD + "ReadAddress" for n in f.walk())]
    F = one(F, "pre-DWARF 5 range list reader")
    off0 = atom(('param', 64, False, F.params[0]["n"]))
    base = atom(('param', 64, False, F.params[1]["n"]))
    B = pointer_of(prog, F, off0)
    for w in (4, 8):
        s = Script(add(B, off0), 4)
        want = []

        def pair(a=None, b=None):
            at = s.p
            for i, x in enumerate((a, b)):
                if x is not None:
                    s.const[('adr', add(at, K(i * w)))] = x
            s.p = add(at, K(2 * w))
            return adr(at), adr(add(at, K(w)))
        x = pair()
        want.append((add(x[0], base), add(x[1], base)))
        nb = pair(2 ** (8 * w) - 1 if w == 4 else 2 ** 64 - 1)[1]
        y = pair()
        want.append((add(y[0], nb), add(y[1], nb)))
        pair(0, 0)
        m = Lists(s, adrsz=w)
        rets, out = vn.run(Interp(prog, intercept=m.intercept, assume=decide(s)), F)
        compare(r, F, "ranges, a base selection and more ranges (%d-byte addresses)" % w, m.pushed, want, out is not None)
    r.count(lists=2)
    r.sample("%s: pair, base selection, pair, end" % F.q)


def pointer_of(prog, F, off0):
    """the section pointer a list reader adds its offset to"""
    seen = []

    def icpt(ip, n, fname, av, st, fr):
        if fname.startswith(RD) and fname[len(RD):] in ("ReadAddress", "ReadOneByte") and not seen:
            seen.append(av[0])
        return None
    m = Model(adrsz=8, extra=icpt)
    vn.run(Interp(prog, intercept=m.intercept, assume=lambda v: None), F)
    base = add(seen[0], off0, -1) if seen else None
    if base is None or base[0] != 'lin' or len(base[2]) != 1:
        return atom(('init', 64, False, fld("ranges_buffer_")))
    return base


def new_lists(prog, r, ms):
    F = [f for f in ms if any((n.get("f") or "") == RD + "ReadOneByte" for n in f.walk()) and
         any(p["s"] == "p" and "char" in p.get("t", "char") for p in f.params) and len(f.params) >= 4]
    F = one(F, "DWARF 5 range list reader")
    pn = [p for p in F.params if p["s"] == "p" and "char" in (p.get("t") or "")]
    base = atom(('param', 64, False, F.params[0]["n"]))
    names = [p["n"] for p in F.params]
    pos = atom(('param', 64, False, (pn[0] if pn else F.params[2])["n"]))
    u64 = [p["n"] for p in F.params if p["s"] == "u64"]
    u8 = [p["n"] for p in F.params if p["s"] == "u8"]
    base = atom(('param', 64, False, u64[0]))
    ab = atom(('param', 64, False, u64[1]))
    for w in (4, 8):
        for kind, code in RLE.items():
            if kind == "end_of_list":
                continue
            s = Script(pos, 4)
            tab = atom(('init', 64, False, fld("addr_buffer_")))
            asz = K(w)

            def addrx():
                i = s.leb()
                return adr(add(add(tab, ab), mul(i, asz)))

            def address():
                at = s.p
                s.p = add(at, asz)
                return adr(at)
            want, nb = [], base
            s.fixed(1, code)
            if kind == "base_addressx":
                nb = addrx()
            elif kind == "base_address":
                nb = address()
            elif kind == "startx_endx":
                a = addrx()
                want.append((a, addrx()))
            elif kind == "startx_length":
                a = addrx()
                want.append((a, add(a, s.leb())))
            elif kind == "offset_pair":
                a = s.leb()
                want.append((add(a, base), add(s.leb(), base)))
            elif kind == "start_end":
                a = address()
                want.append((a, address()))
            elif kind == "start_length":
                a = address()
                want.append((a, add(a, s.leb())))
            s.fixed(1, RLE["offset_pair"])
            a = s.leb()
            want.append((add(a, nb), add(s.leb(), nb)))
            s.fixed(1, 0)
            m = Lists(s, adrsz=w)
            rets, out = vn.run(Interp(prog, intercept=m.intercept, assume=decide(s)), F, params={u8[0]: K(w)} if u8 else None)
            compare(r, F, "a %s entry, an offset pair and the end (%d-byte addresses)" % (kind, w), m.pushed, want, out is not None)
            r.count(lists=1)
    r.sample("%s: every entry kind x address sizes 4, 8" % F.q)


def headers(prog, r, ms):
    F = [f for f in ms if any((n.get("f") or "") == RD + "ReadInitialLength" for n in f.walk())]
    if not F:
        return
    F = F[0]
    for osz in (4, 8):
        seen = []
        P = atom(('init', 64, False, fld("rnglist_buffer_")))
        s = Script(add(P, K(12 if osz == 8 else 4)), osz)
        ver = s.fixed(2, 5)
        exp = {"version": K(5), "address_size": s.fixed(1), "segment_selector_size": s.fixed(1), "offset_entry_count": s.fixed(4, 2)}
        start = add(s.p, P, -1)
        exp["rnglist_base_"] = start
        exp["offset_list_"] = [s.offset(), s.offset()]
        keys, offs = [], []

        def icpt(ip, n, fname, av, st, fr):
            x = s.extra(ip, n, fname, av, st, fr)
            if x is not None:
                return x
            if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "map<" in (n.f or ""):
                return ('lref', ('entry', av[1]))
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and n.ch[1].k == "CXXOperatorCallExpr":
                to = ip.lval(st, n.ch[1], fr)
                frm = ip.lval(st, n.ch[2], fr)
                if to[0] == 'entry':
                    keys.append((to[1], {f: ip.load(st, ('f', frm, f), 'u64') for f in exp}))
            if short(n) in ("push_back", "emplace_back") and "vector" in (n.f or ""):
                offs.append(av[0])
                return atom(('void',))
            return None
        m = Model(offsz=osz, extra=icpt)

        def leaf(v):
            if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and len(v[2][0][0]) == 4:
                a = v[2][0][0]
                end = lambda x: x[0] == 'lin' and any(t[0] == 'init' and str(t[3][-1]).endswith("length_") for t, c in x[2])
                lng = lambda x: x[0] == 'lin' and any(t[0] == 'rd' and c == 1 for t, c in x[2])
                if a[1] in ('<', '<='):
                    if end(a[3]) and lng(a[2]) and a[1] == '<':
                        return False        # one table only
                    if end(a[3]) and not end(a[2]):
                        return True
                    if end(a[2]) and not end(a[3]):
                        return False
            return True if nonzero(v) else None
        rets, out = vn.run(Interp(prog, intercept=m.intercept, assume=lambda v: logic(v, leaf)), F)
        r.count(obligations=2, header_layouts=1)
        if len(keys) != 1 or not agree(keys[0][0], start, None):
            r.add("%s|key" % F.q, F.where(), "%s: the table with %d-byte offsets is filed under %s, its lists start at %s" % (
                F.q, osz, [vn.show_val(k[0])[:80] for k in keys][:2], vn.show_val(start)))
            continue
        for f, w in exp.items():
            if f == "offset_list_":
                continue
            r.count(obligations=1)
            if not agree(keys[0][1][f], w, None):
                r.add("%s|%s" % (F.q, f), F.where(), "%s: %s decodes to %s, the standard says %s (%d-byte offsets)" % (
                    F.q, f, vn.show_val(keys[0][1][f])[:80], vn.show_val(w)[:80], osz))
        if [vn.show_val(x) for x in offs] != [vn.show_val(x) for x in exp["offset_list_"]]:
            r.add("%s|offsets" % F.q, F.where(), "%s: the offset table (%d-byte offsets) reads %s, the standard says %s" % (
                F.q, osz, [vn.show_val(x)[:60] for x in offs][:3], [vn.show_val(x)[:60] for x in exp["offset_list_"]]))
    r.sample("%s: table header with 4- and 8-byte offsets, two-entry offset table" % F.q)


def routes(prog, r, ms):
    """which list format a unit's version selects, and where an offset or an indexed list starts"""
    read5 = {f.key for f in ms if any((n.get("f") or "") == RD + "ReadOneByte" for n in f.walk()) and len(f.params) >= 4}
    read4 = {f.key for f in ms if len(f.params) == 3 and any((n.get("f") or "") == RD + "ReadAddress" for n in f.walk())}
    top = [f for f in ms if any(p["s"] == "u8" for p in f.params) and f.key not in read5 and len(f.params) >= 4]
    for F in top:
        u64 = [p["n"] for p in F.params if p["s"] == "u64"]
        ver = [p["n"] for p in F.params if p["s"] == "u8"][0]
        for v in (2, 3, 4, 5):
            calls = []

            def icpt(ip, n, fname, av, st, fr):
                if n.get("fk") in read5 | read4:
                    calls.append((n.get("fk"), tuple(av), n))
                    return atom(('void',))
                return None
            vn.run(Interp(prog, intercept=icpt, assume=lambda v: None), F, params={ver: K(v)})
            r.count(obligations=1)
            want = read5 if v >= 5 else read4
            if len(calls) != 1 or calls[0][0] not in want:
                r.add("%s|version %d" % (F.q, v), F.where(), "%s: DWARF %d ranges are %s" % (
                    F.q, v, "not read by the reader of that format" if calls else "not read"))
                continue
            av = [x for x in calls[0][1]]
            o = atom(('param', 64, False, u64[0]))
            b = atom(('param', 64, False, u64[1]))
            exp = add(o, atom(('init', 64, False, fld("rnglist_buffer_")))) if v >= 5 else o
            r.count(obligations=1)
            if not any(x == exp for x in av) or not any(x == b for x in av):
                r.add("%s|start %d" % (F.q, v), F.where(), "%s: DWARF %d ranges at an offset are read from %s" % (
                    F.q, v, [vn.show_val(x)[:60] for x in av]))
    r.sample("list format by DWARF version")
