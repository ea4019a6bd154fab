"""What is written to a GCC profile file, the reader takes back: same shape, same meaning."""
import wire
from wire import Wire, K, show, short, subst, walk1
from ir import is_call
from core import Result

PRIMS = {'gcov_write_unsigned': ('unsigned', 'w'), 'gcov_write_counter': ('counter', 'w'), 'gcov_write_string': ('string', 'w'),
         'gcov_read_unsigned': ('unsigned', 'r'), 'gcov_read_counter': ('counter', 'r'), 'gcov_read_string': ('string', 'r')}
KIND = {"unsigned": "a 32-bit value", "counter": "a 64-bit counter", "string": "a string", "loop": "repeated records", "cut": "nested record", None: "nothing"}
NSP = "devtools_crosstool_autofdo::"


class Stop(Exception):
    pass


def has_toks(items):
    return any(i[0] == 'tok' or i[0] == 'loop' and has_toks(i[3]) or i[0] == 'alt' and (has_toks(i[2]) or has_toks(i[3])) for i in items)


def toks(items):
    return [i for i in items if i[0] in ('tok', 'cut') or i[0] == 'loop' and has_toks(i[3]) or i[0] == 'alt' and (has_toks(i[2]) or has_toks(i[3]))]


class Match:
    def __init__(self, r, W, R, wfun, rfun):
        self.r, self.W, self.R = r, W, R
        self.wfun, self.rfun = wfun, rfun
        self.bind = {}
        self.member = {}        # token -> member the written expression names
        self.facts = []         # reader effects with written terms substituted: (kind, name, base, args, conds, node, F)
        self.pending = []
        self.kinds = {}

    def s(self, t):
        return subst(t, self.bind)

    def complain(self, key, F, n, msg):
        self.r.add(key, F.where(n), msg)

    # the writer's view: conditions around tokens
    def wnorm(self, items):
        """alternatives that leave without writing are failure exits"""
        out = []
        for i in items:
            if i[0] == 'alt':
                ex = i[6:] if len(i) > 6 else (None, None)
                a, b = has_toks(i[2]), has_toks(i[3])
                if not a and not b:
                    continue
                if 'ret' in ex and ex[0] != ex[1] or 'dead' in ex:
                    if not a and ex[0] in ('ret', 'dead'):
                        out += self.wnorm(i[3])
                        continue
                    if not b and ex[1] in ('ret', 'dead'):
                        out += self.wnorm(i[2])
                        continue
                if len(ex) == 2 and ex[0] == ex[1] == 'ret' and a != b:
                    out += self.wnorm(i[2] if a else i[3])
                    continue
                out.append(i)
            elif i[0] in ('tok', 'loop', 'cut'):
                if i[0] != 'loop' or has_toks(i[3]):
                    out.append(i)
        return out

    def one(self, items):
        t = self.wnorm(items)
        return t[0] if len(t) == 1 and t[0][0] == 'tok' else None

    def run(self, w, rd, conds=(), depth=0):
        ws = self.wnorm(w)
        wi = 0
        rlast = (self.rfun, None)
        for x in rd:
            h = x[0]
            if h == 'tok':
                rlast = (x[4], x[3])
                if wi >= len(ws):
                    self.complain("shape|%s" % x[4].q, x[4], x[3], "%s reads %s where nothing is written any more" % (x[4].q, KIND[x[1]]))
                    raise Stop
                y = ws[wi]
                self.r.count(tokens=1)
                if y[0] == 'alt':
                    a, b = self.one(y[2]), self.one(y[3])
                    if a and b and a[1] == b[1]:
                        y = ('tok', a[1], ('op', '?', (a[2], b[2])), a[3], a[4])
                    else:
                        self.complain("shape|%s" % y[5].q, y[5], y[4], "%s: a value is written only under a condition the reader does not know, but %s always reads %s" % (
                            y[5].q, x[4].q, KIND[x[1]]))
                        raise Stop
                if y[0] != 'tok' or y[1] != x[1]:
                    F, n = (y[4], y[3]) if y[0] == 'tok' else (y[6], y[5]) if y[0] == 'loop' else (self.wfun, None)
                    self.complain("shape|%s|%s" % (x[4].q, F.q), x[4], x[3], "%s (%s) reads %s where %s (%s) writes %s" % (
                        x[4].q, x[4].where(x[3]), KIND[x[1]], F.q, F.where(n), KIND[y[1] if y[0] == 'tok' else y[0]]))
                    raise Stop
                wi += 1
                self.bind[x[2]] = y[2]
                self.member[x[2]] = member(y[3])
            elif h == 'check':
                a, b = self.s(x[2]), self.s(x[3])
                if x[1] == "EQ" and (x[2] != a or x[3] != b):
                    self.r.count(constants=1)
                    if a != b:
                        self.complain("constant|%s" % x[5].q, x[5], x[4], "%s expects %s where %s is written" % (x[5].q, show(b), show(a)))
            elif h in ('sink', 'set', 'setflag'):
                self.effect(x, conds)
            elif h == 'alt':
                ex = x[6:] if len(x) > 6 else (None, None)
                if has_toks(x[2]) or has_toks(x[3]):
                    a, b = has_toks(x[2]), has_toks(x[3])
                    if a != b and ex[0 if b else 1] in ('ret', 'dead'):
                        self.flat(x[3] if a else x[2], conds)
                        # continues in the other side
                        n = self.run_part(ws, wi, x[2] if a else x[3], conds, depth)
                        wi = n
                        continue
                    self.complain("cond|%s" % x[5].q, x[5], x[4], "%s reads more or less depending on %s, which the writer does not depend on" % (x[5].q, show(self.s(x[1]))))
                    raise Stop
                if ('ret' in ex or 'break' in ex or 'cont' in ex) and ex[0] != ex[1] and 'dead' not in ex and skips(self.W.prog, x[5], x[4]):
                    self.complain("skip|%s" % x[5].q, x[5], x[4], "%s leaves the rest of a record unread depending on %s, which the writer does not depend on" % (
                        x[5].q, show(self.s(x[1]))))
                    raise Stop
                self.flat(x[2], conds + ((self.s(x[1]), True),))
                self.flat(x[3], conds + ((self.s(x[1]), False),))
            elif h == 'loop':
                if not has_toks(x[3]):
                    self.flat(x[3], conds)
                    continue
                if wi >= len(ws) or ws[wi][0] != 'loop':
                    y = ws[wi] if wi < len(ws) else None
                    self.complain("shape|%s" % x[6].q, x[6], x[5], "%s reads repeated records where %s" % (
                        x[6].q, "%s (%s) writes %s" % (y[4].q, y[4].where(y[3]), KIND[y[1]]) if y and y[0] == 'tok' else "none are written"))
                    raise Stop
                y = ws[wi]
                wi += 1
                self.loop(y, x, conds, depth)
            elif h == 'cut':
                # nested records beyond the unrolling depth: both sides must be there
                if not any(z[0] == 'cut' for z in ws[wi:]):
                    self.complain("shape|%s" % self.rfun.q, self.rfun, None, "nested records are read that are not written")
                    raise Stop
                wi = len(ws)
        rest = [z for z in ws[wi:]]
        if rest and not any(z[0] == 'cut' for z in rest):
            z = rest[0]
            F, n = (z[4], z[3]) if z[0] == 'tok' else (z[6], z[5]) if z[0] == 'loop' else (z[5], z[4]) if z[0] == 'alt' else (self.wfun, None)
            self.complain("unread|%s|%s" % (F.q, rlast[0].q), F, n, "%s writes %s that %s does not read" % (F.q, KIND.get(z[1] if z[0] == 'tok' else z[0], "values"), rlast[0].q))
            raise Stop

    def run_part(self, ws, wi, rd, conds, depth):
        sub = Match(self.r, self.W, self.R, self.wfun, self.rfun)
        sub.bind, sub.facts, sub.member = self.bind, self.facts, self.member
        sub.run([w for w in ws[wi:]], rd, conds, depth)
        return len(ws)

    def loop(self, y, x, conds, depth):
        body = self.wnorm(y[3])
        raw = y[2]
        cnt = None if raw is None else wire.anon(raw, y[1])
        # records skipped under a condition
        while len(body) == 1 and body[0][0] == 'alt' and has_toks(body[0][2]) != has_toks(body[0][3]):
            a = body[0]
            c = a[1] if has_toks(a[2]) else ('op', '!', (a[1],))
            if cnt is not None:
                cnt = ('some', cnt, wire.anon(c, y[1]))
            body = self.wnorm(a[2] if has_toks(a[2]) else a[3])
        got = None if x[2] is None else self.s(x[2])
        self.r.count(loops=1)
        if cnt is not None and got is not None:
            if got != cnt and self.flatcount(got) != self.flatcount(cnt):
                self.complain("count|%s|%s" % (x[6].q, y[6].q), y[6], y[5], "%s writes %s records, but the count %s goes by is %s" % (
                    y[6].q, showc(cnt), x[6].q, showc(got)))
        else:
            self.r.count(loops_not_counted=1)
        self.pending.append((y, cnt))
        # reader variables of the loop
        self.bind[('idx', x[1])] = ('idx', y[1])
        self.run_body(body, x, conds + ((('loop', y[1]), True),), depth)

    def run_body(self, body, x, conds, depth):
        self.run(body, x[3], conds, depth + 1)

    def flatcount(self, t):
        if t[0] == 'op' and t[1] == '-' and t[2][1] == K(0):
            return self.flatcount(t[2][0])
        return t

    def flat(self, items, conds):
        for i in items:
            if i[0] in ('sink', 'set', 'setflag'):
                self.effect(i, conds)
            elif i[0] == 'alt':
                self.flat(i[2], conds + ((self.s(i[1]), True),))
                self.flat(i[3], conds + ((self.s(i[1]), False),))
            elif i[0] == 'loop':
                self.flat(i[3], conds)

    def effect(self, i, conds):
        if i[0] == 'sink':
            self.facts.append(('sink', i[1], i[2], i[3], conds, i[4], i[5], i[6] if len(i) > 6 else None))
        elif i[0] == 'set':
            self.facts.append(('set', i[1], None, (i[2],), conds, i[3], i[4], None))
        else:
            self.facts.append(('setflag', i[1], None, (i[2],), conds, i[3], i[4], None))


def reads(prog, F, seen=None):
    """does F read from the profile, itself or through what it calls?"""
    seen = set() if seen is None else seen
    if F.key in seen:
        return False
    seen.add(F.key)
    for n in F.walk():
        if n.k in ("CallExpr", "CXXMemberCallExpr"):
            if short(n.f or "") in PRIMS or any(G.body is not None and G.q.startswith(NSP) and reads(prog, G, seen) for G in prog.callee(n, F)):
                return True
    return False


def skips(prog, F, s):
    """a return (not of a failure), break or continue under the if statement s passes over reads that follow it in F"""
    from frontend import walk
    from ir import cval
    inside = list(walk(s))
    ids = {id(x) for x in inside}
    out = [x for x in inside if x.k in ("ReturnStmt", "BreakStmt", "ContinueStmt")]
    out = [x for x in out if not (x.k == "ReturnStmt" and x.ch and x.ch[0] is not None and (cval(x.ch[0]) is not None or x.ch[0].s not in ("b", None)))]
    if not out:
        return False
    after = False
    for n in F.walk():
        if id(n) in ids:
            after = True
        elif after and n.k in ("CallExpr", "CXXMemberCallExpr"):
            if short(n.f or "") in PRIMS or any(G.body is not None and G.q.startswith(NSP) and reads(prog, G) for G in prog.callee(n, F)):
                return True
    return False


def showc(t):
    if t[0] == 'some':
        return "%s that satisfy %s" % (showc(t[1]), show(t[2]))
    return show(t)


def leaf(t):
    """the member a term ends in"""
    if isinstance(t, tuple) and t and t[0] == 'after':
        t = t[1]
    while isinstance(t, tuple) and t and t[0] == 'op' and len(t[2]) == 2 and t[2][1][0] == 'k':
        t = t[2][0]
    return t[2] if isinstance(t, tuple) and t and t[0] == 'm' else None


def mutator(prog, F, cache):
    """what a function of the symbol map stores: member -> [(parameter index, term)]"""
    if F.key in cache:
        return cache[F.key]
    w = Wire(prog, {}, oracle=lambda t: None, inline=lambda G: G.q.startswith(NSP) and G.blocks and not any(
        n.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for n in G.walk()))
    w.reach = set()
    pv = [('param', p["n"]) for p in F.params]
    items = w.run(F, pvals=pv)
    out = {}

    def go(items):
        for i in items:
            if i[0] == 'set':
                l = i[1]
                f = l[2] if l[0] == 'm' else l[1][2] if l[0] == 'at' and l[1][0] == 'm' else None
                for k, p in enumerate(pv):
                    if contains(i[2], p):
                        out.setdefault(k, set()).add((f, 'at' in str(l)))
            elif i[0] in ('alt',):
                go(i[2])
                go(i[3])
            elif i[0] == 'loop':
                go(i[3])
    go(items)
    cache[F.key] = out
    return out


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t if isinstance(y, tuple))


def guarded(r, m, conds, q, tk, n, F, what, plain):
    """a value is kept whatever the profile holds"""
    for c, on in conds:
        if c[0] == 'loop' or on is True and m.R.truth(c) or on is False and m.R.truth(c) is False:
            continue
        if plain and c[0] == 'op' and c[1] in ('>', '!=', '!') and len(c[2]) and (len(c[2]) == 1 or c[2][1] == K(0)):
            continue        # a value of zero is the state before
        r.add("guard|%s|%s" % (F.q, what), F.where(n), "%s: what was written is kept by %s only if %s%s" % (F.q, what, "" if on else "not ", show(c)))


def member(n):
    from ir import args
    a = args(n)
    if not a:
        return None
    x = wire.strip(a[0])
    return x.n if x is not None and x.k == "MemberExpr" and x.dk == "Field" else None


def strings_of(t):
    """the string a name term stands for"""
    while True:
        if t[0] == 'call' and short(t[1]) in ("c_str", "data", "operator basic_string_view", "str") and t[2]:
            t = t[2]
        elif t[0] == 'new' and t[2] and ("string" in t[1] or t[1].endswith("StringRef")):
            t = t[2][0]
        elif t[0] == 'op' and t[1] in ('?', 'phi') and len(t[2]) >= 2 and t[2][-1] == ('str', ''):
            t = t[2][-2]
        else:
            return t


def check(prog, tier):
    r = Result("grammar extraction: the sequence of tokens the profile writer emits and the sequence the reader consumes are derived from the "
               "code, for each format version, and compared token by token together with repeat counts, constants and the member each value comes from and goes to")
    wf = [F for F in prog.functions if F.q == NSP + "AutoFDOProfileWriter::WriteToFile" and F.body]
    rf = [F for F in prog.functions if F.q == NSP + "AutoFDOProfileReader::ReadFromFile" and F.body]
    r.require(len(wf) == 1 and len(rf) == 1, "profile writer and reader entry points")
    depth = 3 if tier == "quick" else 4
    for v in (1, 2, 3):
        scenario(prog, r, wf[0], rf[0], v, depth)
    version(prog, r, wf[0])
    sequence(prog, r, wf[0], rf[0], depth)
    registered(prog, r)
    indices(prog, r, wf[0])
    widths(prog, r, rf[0])
    r.assumptions = ["the profile is read into an empty set of functions", "nesting deeper than %d follows the same code" % depth]
    return r


def scenario(prog, r, wf, rf, v, depth):
    def oracle(t):
        if t[0] == 'flag':
            return False if "dump" in (t[1] or "") else None
        if t[0] == 'm' and t[2] == 'force_update_':
            return False
        if t[0] == 'op' and t[1] in ('>', '!=', '==') and t[2][1] == K(0) and t[2][0][0] == 'm' and t[2][0][2] == 'total_count':
            return t[1] == '=='
        return None
    flags = {"FLAGS_gcov_version": K(v)}
    W = Wire(prog, PRIMS, flags=flags, oracle=oracle, depth=depth)
    w = W.run(wf)
    R = Wire(prog, PRIMS, flags=flags, oracle=oracle, depth=depth)
    rd = R.run(rf)
    r.require(len(toks(w)) > 8 and len(toks(rd)) > 8, "tokens of the profile format")
    m = Match(r, W, R, wf, rf)
    layout(r, m, w, v)
    try:
        m.run(w, rd)
    except Stop:
        return
    meaning(prog, r, m, W, R, w, v)


def sequence(prog, r, wf, rf, depth):
    """the reader consumes the same values whatever it makes of them (functions known already, forced updates)"""
    def oracle(t):
        return (False if "dump" in (t[1] or "") else None) if t[0] == 'flag' else None
    W = Wire(prog, PRIMS, flags={"FLAGS_gcov_version": K(3)}, oracle=oracle, depth=depth)
    R = Wire(prog, PRIMS, flags={"FLAGS_gcov_version": K(3)}, oracle=oracle, depth=depth)
    m = Match(r, W, R, wf, rf)
    w, rd = W.run(wf), R.run(rf)
    try:
        m.run(w, rd)
    except Stop:
        pass


def registered(prog, r):
    """every string the writers look up an index for has been given one, whatever the counts"""
    base = NSP + "SymbolTraverser"
    regs, looks = {}, {}

    def norm(t, F):
        while True:
            if t[0] == 'call' and len(t[3]) == 1:
                t = t[3][0]
            elif t[0] == 'call' and t[2] and not t[3]:
                t = t[2]
            elif t[0] == 'op' and t[1] in ('?', 'phi'):
                t = t[2][-2]
            elif t[0] in ('lv', 'pair') and isinstance(t[1], tuple):
                t = t[1]
            else:
                break
        ps = [p["n"] for p in F.params]

        def rec(x):
            if not isinstance(x, tuple) or not x:
                return x
            if x[0] == '*' and x[1][0] == 'call' and short(x[1][1]) == "find" and x[1][2]:
                return ('elem', rec(x[1][2]))
            if x[0] == 'elem':
                return ('elem', rec(x[1]))
            if x[0] == 'param' and x[1] in ps:
                return ('param', ps.index(x[1]))
            return tuple(rec(y) for y in x)
        return rec(t)
    for F in prog.functions:
        if not F.cls or not F.body or F.cls == base or not prog.records.get(F.cls) or base not in {
                (b["t"] if isinstance(b, dict) else b).split(" ")[-1] for b in prog.records[F.cls].get("bases") or ()} or F.d.get("ctor"):
            continue
        w = Wire(prog, {}, oracle=lambda t: None, inline=lambda G, c=F.cls: G.cls == c and not any("find" == short(n.f or "") or getattr(
            n.ch[0], "n", None) == "find" for n in G.walk() if n.k == "CXXMemberCallExpr"))
        w.reach = set()
        items = w.run(F)

        def go(items, conds):
            for i in items:
                if i[0] == 'loop':
                    go(i[3], conds)
                elif i[0] == 'alt':
                    go(i[2], conds + (i[1],))
                    go(i[3], conds + (('op', '!', (i[1],)),))
                elif i[0] == 'set':
                    l = i[1][1] if i[1][0] == 'lv' else i[1]
                    if l[0] == 'at' and l[1][0] == 'm' and l[1][1][0] == 'this':
                        regs.setdefault((F.cls, short(F.q)), []).append((norm(l[2], F), conds, i[3], i[4]))
                elif i[0] == 'sink' and short(i[1]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and i[2] and i[2][0] == 'm' and i[3]:
                    regs.setdefault((F.cls, short(F.q)), []).append((norm(i[3][0], F), conds, i[4], i[5]))
                elif i[0] == 'sink' and i[2] and i[2][0] == 'this' and len(i[3]) == 1:
                    for G in prog.by_q.get(i[1], []):
                        if G.cls == F.cls and G.body and any(n.k == "CXXMemberCallExpr" and getattr(n.ch[0], "n", "") == "find" for n in G.walk()):
                            looks.setdefault((F.cls, short(F.q)), []).append((norm(i[3][0], F), conds, i[4], i[5], F))
        go(items, ())
    tables = {c for c, mth in regs if any((c2, m2) for c2, m2 in regs if c2 == c and m2 != mth)}
    r.require(bool(tables) and bool(looks), "string table and its users")
    for (c, mth), ks in looks.items():
        for key, conds, n, G, F in ks:
            for t in tables:
                have = [x for x in regs.get((t, mth), []) if x[0] == key]
                r.count(registered=1)
                plain = [x for x in have if not x[1] or all(y in conds for y in x[1])]
                if have and not plain and len(have) == 1 or (t, mth) not in regs and not any(
                            c2 == t and x[0][-1] == key[-1] for (c2, _), xs in regs.items() for x in xs):
                    at = have[0] if have else None
                    r.add("registered|%s|%s" % (t, mth), F.where(), "%s: %s looks up the index of %s, which %s" % (
                        F.q, short(F.q), show(key)[:60], "is registered only if %s" % show(at[1][0])[:70] if at else "was never registered"))


def indices(prog, r, wf):
    """the index noted for a new entry of a table is that entry's place; an index found is passed on unchanged"""
    import vn
    from dwarf import depends
    reach, todo = set(), [wf]
    while todo:
        F = todo.pop()
        if F.key in reach:
            continue
        reach.add(F.key)
        for n in F.walk():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
                todo += [G for G in prog.callee(n, F) if G.body is not None and G.q.startswith(NSP)]
    classes = {F.cls for F in prog.functions if F.key in reach and F.cls}
    found = 0
    for c in sorted(classes):
        rec = prog.records.get(c)
        fs = (rec or {}).get("fields") or ()
        vecs = {f["n"] for f in fs if f["t"].startswith("std::vector<")}
        if not vecs or not any("map<" in f["t"] for f in fs):
            continue
        for F in prog.functions:
            if F.cls != c or not F.blocks or F.d.get("ctor") or not any(
                    n.k == "CXXMemberCallExpr" and getattr(n.ch[0], "n", "") in ("push_back", "emplace_back") and n.ch[0].ch and
                    n.ch[0].ch[0].k == "MemberExpr" and n.ch[0].ch[0].n in vecs for n in F.walk()):
                continue
            asked = []
            size = lambda l: vn.atom(('count', 64, False, l))

            def intercept(ip, n, fname, av, st, fr):
                if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "map" in fname:
                    l = ip.lval(st, n.ch[1], fr)
                    return ('lref', ('el', l, av[1])) if l[0] == 'f' else None
                if n.k != "CXXMemberCallExpr" or n.ch[0].k != "MemberExpr" or not n.ch[0].ch or not fname.startswith("std::"):
                    return None
                o = n.ch[0]
                l = ('*', ip.val(st, o.ch[0], fr)) if o.arrow else ip.lval(st, o.ch[0], fr)
                nm = o.n
                if l[0] == 'f' and "vector" in fname:
                    k = ('x', 'pushes', l)
                    if nm in ("push_back", "emplace_back"):
                        st[k] = vn.add(st.get(k, vn.K(0)), vn.K(1))
                        return vn.atom(('void',))
                    if nm == "size":
                        return vn.add(size(l), st.get(k, vn.K(0)))
                if l[0] == 'f' and "map" in fname and nm in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(av) == 2:
                    ip.store(st, ('el', l, av[0]), av[1])
                return None

            def trial(truth):
                def leaf(v):
                    if v not in asked:
                        asked.append(v)
                    return truth.get(v)
                ip = vn.Interp(prog, intercept=intercept, assume=leaf)
                return vn.run(ip, F)[1] or {}
            trial({})
            n0 = len(asked)
            if n0 > 5:
                continue
            for bits in range(1 << n0):
                out = trial({a: bool(bits >> i & 1) for i, a in enumerate(asked[:n0])})
                pushes = {k[2]: v for k, v in out.items() if k[:2] == ('x', 'pushes')}
                for k, v in out.items():
                    if k[0] != 'el':
                        continue
                    found += 1
                    r.count(indices=1)
                    lin = v if v[0] == 'lin' else None
                    names = [l for l in {f["n"] for f in fs} if depends(v, lambda a: a[0] == 'count' and a[3][-1] == l)]
                    if names:
                        l = [a for a in [x for x, _ in (lin or v)[2]] if a[0] == 'count'] if lin else []
                        cell = ('f', ('o', 'this'), names[0])
                        base = vn.add(v, size(cell), -1)
                        got = pushes.get(cell, vn.K(0))
                        low = None
                        if base[0] == 'k':
                            low = base[1] if base[1] < (1 << 63) else base[1] - (1 << 64)
                        else:
                            w = vn.bits(v)
                            for q in range(0, 4):
                                full = vn.bits(vn.add(size(cell), vn.K(q)))
                                if w and full and tuple(w[:32]) == tuple(full[:32]):
                                    low = q
                        if low is None or got[0] != 'k' or not 0 <= low < got[1]:
                            r.add("place|%s|%s" % (F.q, k[1][-1]), F.where(), "%s: the index noted in %s is not the place of the entry just added to %s" % (
                                F.q, k[1][-1], names[0]))
                    elif lin is not None and lin[2] and (lin[1] or len(lin[2]) != 1 or lin[2][0][1] != 1):
                        r.add("place|%s|%s" % (F.q, k[1][-1]), F.where(), "%s: the index noted in %s is not the one that was found" % (F.q, k[1][-1]))
    r.require(found > 0, "tables with indices")


def widths(prog, r, rf):
    """a value read is not cut to less than the bits it has in the file"""
    from ir import strip
    import vn
    reach, todo = {}, [rf]
    while todo:
        F = todo.pop()
        if F.key in reach:
            continue
        reach[F.key] = F
        for n in F.walk():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
                todo += [G for G in prog.callee(n, F) if G.body is not None and G.q.startswith(NSP)]
    for F in reach.values():
        for n in F.walk():
            if n.k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.ch and n.s and n.s[0] in "us":
                x = n.ch[0]
                if n.s == x.s or not (x.s and x.s[0] in "us"):
                    continue
                calls = [y for y in parts_of(x) if y.k == "CallExpr" and short(y.f or "") in PRIMS]
                if not calls:
                    continue
                r.count(widths=1)
                if vn.shape_bits(n.s)[0] < 32:
                    r.add("width|%s" % F.q, F.where(n), "%s: a value of the profile is cut to %d bits" % (F.q, vn.shape_bits(n.s)[0]))


def parts_of(n):
    """the expressions whose value n takes"""
    from ir import strip
    n = strip(n)
    if n is None:
        return []
    if n.k == "ConditionalOperator":
        return parts_of(n.ch[1]) + parts_of(n.ch[2])
    return [n]


def meaning(prog, r, m, W, R, w, v):
    cache = {}
    names = name_table(r, m, w)
    used = set()
    cols = {}
    for kind, q, b, av, conds, n, F, ctx in m.facts:
        if kind == 'setflag':
            used.update(tokens_in(av[0]))
            continue
        if kind == 'set':
            l, val = m.s(q), m.s(av[0])
            f = leaf(q)
            src = m.member.get(av[0]) or leaf(val)
            used.update(tokens_in(av[0]))
            if tokens_in(av[0]):
                guarded(r, m, conds, q, (), n, F, f, True)
            if src and f and f != src and av[0][0] == 'tok' and src not in ("first", "second"):
                r.count(bindings=1)
                r.add("field|%s|%s" % (F.q, f), F.where(n), "%s stores into %s the value written from %s" % (F.q, f, show(val)))
            elif src and av[0][0] == 'tok':
                r.count(bindings=1)
            continue
        Gs = [G for G in prog.callee(n, F) if G.body is not None]
        mu = mutator(prog, Gs[0], cache) if len(Gs) == 1 and Gs[0].cls and "SymbolMap" in Gs[0].cls else {}
        for k, a in enumerate(av):
            tk = tokens_in(a)
            sa = m.s(a)
            used.update(tk)
            if k in mu and tk and not names_in(a):
                fs = {f for f, _ in mu[k] if f}
                guarded(r, m, conds, q, tk, n, F, short(q), not any(e for _, e in mu[k]))
                src = leaf(sa)
                val = sa
                r.count(bindings=1)
                # undo a scaling both sides apply
                while val[0] == 'op' and val[1] == '*' and val[2][1][0] == 'k' and val[2][0][0] == 'op' and val[2][0][1] == '/' and val[2][0][2][1] == val[2][1]:
                    val = val[2][0][2][0]
                if val[0] == 'm':
                    src = val[2]
                elif val[0] == 'op':
                    r.add("scale|%s|%s" % (F.q, q), F.where(n), "%s hands %s the value %s: it does not undo what the writer did" % (F.q, short(q), show(val)))
                    continue
                if fs and src and src not in fs and not (src == "second" and "target_map" in fs and "target_map" in str(val)):
                    r.add("field|%s|%s|%s" % (F.q, short(q), src), F.where(n), "%s hands %s (which updates %s) the value written from %s" % (
                        F.q, short(q), "/".join(sorted(fs)), show(val)))
        stack_and_names(prog, r, m, W, R, names, Gs, q, av, n, F, ctx)
        if short(q) in ("emplace_back", "push_back") and b is not None and b[0] == 'm' and tk_all(av):
            tables(r, m, names, b, av, conds, n, F, cols)
    # every value written from a member is used by the reader
    for t, src in m.bind.items():
        if t[0] == 'tok' and leaf(src) and t not in used and t not in counts_in(m):
            r.count(bindings=1)
            r.add("dropped|%s|%s" % (leaf(src), v), m.rfun.where(), "%s (format version %d): the value written from %s is read but never kept" % (m.rfun.q, v, show(src)))


def tk_all(av):
    return any(tokens_in(a) for a in av)


def tables(r, m, names, b, av, conds, n, F, cols):
    """the reader's name table holds the strings whose positions were written as indices"""
    s = strings_of(m.s(strings_of(av[0])))
    r.count(tables=1)
    extra = [c for c, take in conds if c[0] != 'loop']
    if extra:
        r.add("table|%s|cond" % F.q, F.where(n), "%s: a record read from the table is kept in %s only if %s, so that later entries change place" % (
            F.q, b[2], show(extra[0])[:80]))
    src = [x for x in subterms(s) if x[0] == 'elem']
    keyed = [x for x in subterms(s) if x[0] == 'm' and x[1][0] == 'elem']
    if len(av) == 1:
        cols[("files", b)] = {wire.root(x[1]) for x in src}
        return
    if not src or src[0][1] not in names or keyed and keyed[0][2] != "first":
        r.add("table|%s" % F.q, F.where(n), "%s: the table %s is filled with %s, not with the strings whose positions are written as indices" % (F.q, b[2], show(s)))
    for a in av[1:]:
        t = m.s(a)
        calls = [x for x in subterms(t) if x[0] == 'call' and x[2] is not None and x[2][0] in ('var', 'm')]
        files = cols.get(("files",) + tuple(k[1] for k in cols if k[0] == "files"))
        for c in calls:
            if files is not None and not (files & {wire.root(c[2])}):
                r.add("files|%s" % F.q, F.where(n), "%s: file indices come from %s, the file table from elsewhere" % (F.q, show(c[2])))
            elif files is not None and src and not any(y == src[0] for z in c[3] for y in subterms(z)):
                r.add("files|%s" % F.q, F.where(n), "%s: the file index stored with a name is %s" % (F.q, show(t)))


def counts_in(m):
    return getattr(m, "_counts", set())


def tokens_in(t):
    if t[0] == 'tok':
        return {t}
    out = set()
    for x in t:
        if isinstance(x, tuple) and x:
            out |= tokens_in(x)
    return out


def names_in(t):
    return t[0] == 'm' and t[2] == 'first' or any(isinstance(x, tuple) and x and names_in(x) for x in t)


def name_table(r, m, w):
    """container whose strings are written as the name table, if indices are its positions"""
    out = {}

    def go(items, path):
        for k, i in enumerate(items):
            if i[0] == 'loop':
                for j in i[3]:
                    if j[0] == 'set' and j[1][0] == 'm' and j[1][2] == 'second' and j[1][1] == ('elem', i[2][1] if i[2] and i[2][0] == 'size' else None, i[1]):
                        out[i[2][1]] = (j[2], i[4] or {}, j[3], j[4], m.W.updates.get(i[1], {}))
                go(i[3], path)
            elif i[0] == 'alt':
                go(i[2], path)
                go(i[3], path)
    go(w, ())
    for c, (val, init, n, F, up) in out.items():
        r.count(obligations=1)
        if val[0] == 'lv':
            if init.get(val[1]) != K(0):
                r.add("index|start", F.where(n), "%s: name indices do not start at 0, where the reader's table starts" % F.q)
            elif up.get(val[1]) != ('op', '+', (val, K(1))):
                r.add("index|step", F.where(n), "%s: name indices do not advance by one with every name (%s)" % (F.q, show(up.get(val[1], val))[:80]))
        elif val != ('idx', None):
            r.add("index|order", F.where(n), "%s: name indices are not the positions in the name table" % F.q)
    return out


def stack_and_names(prog, r, m, W, R, names, Gs, q, av, n, F, ctx):
    if len(Gs) != 1 or not Gs[0].cls or "SymbolMap" not in Gs[0].cls:
        return
    for a in av:
        if a[0] == 'list':
            check_stack(prog, r, m, R, a, av, q, n, F)
    for a in av:
        if a[0] != 'list' and names_in(a):
            r.count(names=1)
            if name_of(r, m, a) is None:
                r.add("name|%s|%s" % (F.q, short(q)), F.where(n), "%s: %s is handed a name that is not the one whose index was written: %s" % (F.q, short(q), show(m.s(a))))


def name_of(r, m, a):
    """the written name a reader's string stands for"""
    x = strings_of(a)
    if x[0] == 'm' and x[2] == 'first' and x[1][0] == 'call' and short(x[1][1]) == 'at':
        i = m.s(x[1][3][0])
        if i[0] == 'call' and len(i[3]) == 1:
            y = i[3][0]
            while y[0] == 'call' and len(y[3]) == 1 and not y[2] or y[0] == 'call' and y[2] and not y[3]:
                y = y[3][0] if y[3] else y[2]
            return y
    return None


def check_stack(prog, r, m, R, lst, av, q, n, F):
    """frames of a record: innermost is the symbol the record belongs to, outer ones its callers, each at its call"""
    frames = lst[1]
    node, last = None, None
    r.count(stacks=1)

    def bad(what):
        r.add("stack|%s|%s|%s" % (F.q, short(q), what), F.where(n), "%s: the inline stack handed to %s %s" % (F.q, short(q), what))
    for k, f in enumerate(frames):
        if f[0] == 'all':
            return bad("has levels that do not come from the profile")
        nm = name_of(r, m, R.load(('m', f, 'func_name')))
        place = m.s(R.load(('m', f, 'line')))
        locs = places(place)
        cont = [x[1][1] if x[1][0] == 'elem' else x[1][1][1] for x in locs if x[1][0] == 'elem' or x[1][0] == 'm' and x[1][1][0] == 'elem']
        cont = [c for c in cont if c[0] == 'm' and c[2] in ('pos_counts', 'callsites')]
        if len(set(cont)) != 1:
            return bad("has a level whose place is not one that was written (%s)" % show(place))
        own = cont[0][1]
        if (cont[0][2] == 'pos_counts') != (k == 0):
            return bad("has %s as its %s level" % ("a call site" if k == 0 else "a sample position", "innermost" if k == 0 else "outer"))
        if k and own != outer(node):
            return bad("lists the levels in the wrong order")
        node = own
        # name written for that symbol
        want = named(node)
        if nm is None or want is None or nm not in want:
            return bad("names %s instead of the function it belongs to" % (show(nm) if nm else show(m.s(R.load(('m', f, 'func_name'))))))
        last = nm
    if outer(node) is not None:
        return bad("does not reach the outermost function")
    top = [a for a in av if a[0] != 'list' and names_in(a)]
    if top and name_of(r, m, top[0]) != last:
        bad("belongs to another function than the one named with it")


def places(t):
    if t[0] == 'm' and (t[1][0] == 'elem' or t[2] == 'location'):
        return [t]
    return [y for x in t if isinstance(x, tuple) and x for y in places(x)]


def outer(node):
    """the symbol in whose call sites this one is"""
    if node and node[0] == 'm' and node[2] == 'second' and node[1][0] == 'elem' and node[1][1][0] == 'm' and node[1][1][2] == 'callsites':
        return node[1][1][1]
    return None


def named(node):
    """terms for a symbol's name: its key in the map of symbols, or the callee of its call site"""
    if node[0] == 'm' and node[2] == 'second' and node[1][0] == 'elem':
        e = node[1]
        if e[1][0] == 'm' and e[1][2] == 'callsites':
            return (('m', ('m', e, 'first'), 'callee_name'),)
        return (('m', e, 'first'),)
    return None


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x:
            yield from subterms(x)


TAGS = {1: (0xaa000000, 0xac000000, 0xae000000, 0xaf000000)}
TAGS[2] = TAGS[1]
TAGS[3] = (0xa8000000,) + TAGS[1]
MAGIC = 0x67636461


def layout(r, m, w, v):
    """section tags of the format GCC reads, in its order"""
    t = [i for i in m.wnorm(w) if i[0] == 'tok']
    consts = [i[2][1] for i in t if i[2][0] == 'k' and i[2][1] >= 0xa0000000 and i[2][1] & 0xffffff == 0]
    r.count(sections=len(consts))
    if not t or t[0][2] != K(MAGIC):
        r.add("magic", m.wfun.where(), "%s: the file does not start with the profile magic number" % m.wfun.q)
    if tuple(consts) != TAGS[v]:
        r.add("sections|%d" % v, m.wfun.where(), "%s: sections of format version %d are %s instead of %s" % (
            m.wfun.q, v, [hex(c) for c in consts], [hex(c) for c in TAGS[v]]))


def version(prog, r, wf):
    """the version in the header is the one the body is written for"""
    W = Wire(prog, PRIMS, flags={}, depth=1)
    w = Match(r, W, None, wf, wf).wnorm(W.run(wf))
    t = [i for i in w if i[0] == 'tok'][1:2]
    r.require(bool(t), "format version in the header")
    t = t[0]
    flag = ('flag', 'FLAGS_gcov_version')
    r.count(obligations=1)
    if t[2] == flag:
        return
    if t[2][0] == 'm' and t[2][1] == ('this', wf.cls):
        for F in prog.functions:
            for n in F.walk():
                if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.cls == wf.cls and not n.get("copy"):
                    V = Wire(prog, {}, flags={}, depth=1)
                    V.reach = set()
                    fr = {"id": 0, "F": F, "this": ('this', F.cls), "alias": {}, "ret": []}
                    V.objs[('obj',)] = wf.cls
                    C = prog.callee(n, F)
                    if len(C) != 1:
                        continue
                    V.enter_inits(C[0], n, ('obj',), fr)
                    got = V.store.get(('m', ('obj',), t[2][2]))
                    r.count(obligations=1)
                    if got != flag:
                        r.add("version|%s" % F.q, F.where(n), "%s: the version put into the header (%s) need not be the one the profile is written in" % (
                            F.q, show(got) if got else "?"))
        return
    r.add("version|%s" % t[4].q, t[4].where(t[3]), "%s: the version put into the header (%s) need not be the one the profile is written in" % (t[4].q, show(t[2])))
