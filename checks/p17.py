"""Adding one piece of profile to another loses and double counts nothing."""
import itertools
import wire
from wire import Wire, K, show, short, anon
from core import Result

NSP = "devtools_crosstool_autofdo::"
MERGE = ("operator+=", "Merge", "FlatMerge")
INT = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "double", "float", "unsigned short", "short")
MAPS = ("std::map<", "std::unordered_map<", "absl::btree_map<", "absl::flat_hash_map<", "absl::node_hash_map<")
FIRST = ("timestamp",)         # the earliest one known is kept
INSERTS = ("insert", "emplace", "try_emplace", "insert_or_assign")


def unlv(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'lv':
        return unlv(t[1])
    return tuple(unlv(x) for x in t)


def cls_of(t):
    t = (t or "").replace("const ", "").strip()
    while t.endswith(("&", "*", " ")):
        t = t[:-1]
    return t


def plus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
        if not out[k]:
            del out[k]
    return out


class St:
    def __init__(self):
        self.cell, self.alias, self.inserted, self.conds, self.zero, self.done = {}, {}, {}, [], set(), ()

    def copy(self):
        s = St()
        s.cell, s.alias, s.inserted, s.conds, s.zero = dict(self.cell), dict(self.alias), dict(self.inserted), list(self.conds), set(self.zero)
        s.done = self.done
        return s


class Ev:
    """evaluates the effects of a function; each repository map element exists beforehand or not (self.present)"""

    def __init__(self, this):
        self.this = this
        self.present = True
        self.loops = []      # (field of this, key, elem container, uid, present, state value)

    def slot(self, t):
        if t[0] == 'at':
            return ('slot', t[1], t[2])
        if t[0] == 'm' and t[2] == 'second':
            b = t[1]
            if b[0] == '*':
                b = b[1]
            if b[0] == 'm' and b[2] == 'first' and b[1][0] == 'call' and short(b[1][1]) in INSERTS:
                return ('slot', b[1][2], self.key(b[1][3]))
            if b[0] == 'call' and short(b[1]) == 'find' and b[3]:
                return ('slot', b[2], b[3][0])
            if b[0] == 'call' and short(b[1]) in INSERTS:
                return None
        return None

    def key(self, av):
        a = av[0] if av else None
        if a and a[0] == 'new' and 'pair' in a[1] and a[2]:
            return a[2][0]
        if a and a[0] == 'call' and short(a[1]) == 'make_pair':
            return a[3][0]
        if a and len(av) == 1 and a[0] == 'elem':
            return ('m', a, 'first')
        return a

    def value_in(self, av):
        a = av[0] if av else None
        if a and a[0] == 'new' and 'pair' in a[1] and len(a[2]) == 2:
            return a[2][1]
        if a and a[0] == 'call' and short(a[1]) == 'make_pair' and len(a[3]) == 2:
            return a[3][1]
        if a and len(av) == 1 and a[0] == 'elem':
            return ('m', a, 'second')
        return av[1] if len(av) > 1 else K(0)

    def canon(self, t, st):
        t = unlv(t)
        if t in st.alias:
            return st.alias[t]
        if t[0] == 'op' and t[1] == 'phi':
            c = self.truth(t[2][0], st)
            if c is not None:
                return self.canon(t[2][1 if c else 2], st)
            a, b = self.canon(t[2][1], st), self.canon(t[2][2], st)
            return a if a == b else None
        if t[0] == '*':
            s = self.slot(t[1]) or (st.alias.get(t[1]))
            if s:
                return s
        return self.slot(t) or (t if t[0] in ('m', '*', 'at', 'var') else None)

    def get(self, c, st):
        if c in st.cell:
            return st.cell[c]
        if c[0] == 'slot':
            return {('old', c): 1} if self.present else {}
        return {('old', c): 1}

    def val(self, t, st):
        t = unlv(t)
        if t[0] == 'k':
            return {'1': t[1]} if t[1] else {}
        if t[0] == 'op' and t[1] == '+' and len(t[2]) == 2:
            return plus(self.val(t[2][0], st), self.val(t[2][1], st))
        if t[0] == 'op' and t[1] == 'phi':
            c = self.truth(t[2][0], st)
            if c is not None:
                return self.val(t[2][1 if c else 2], st)
        if t in st.zero:
            return {}
        if t[0] in ('m', 'at', '*', 'var', 'new') or t in st.alias:
            c = self.canon(t, st)
            if c is not None and (c in st.cell or c[0] == 'slot' or wire.root(c) == self.this):
                return self.get(c, st)
        return {t: 1}

    def truth(self, c, st):
        c = unlv(c)
        for x, b in st.conds:
            if x == c:
                return b
        if c[0] == 'k':
            return bool(c[1])
        if c[0] == 'op' and c[1] == '!':
            x = self.truth(c[2][0], st)
            return None if x is None else not x
        if c[0] == 'op' and c[1] in ('&&', '||'):
            x = [self.truth(y, st) for y in c[2]]
            if c[1] == '&&':
                return False if False in x else True if x == [True, True] else None
            return True if True in x else False if x == [False, False] else None
        if c[0] == 'm' and c[2] == 'second' and c[1][0] == 'call' and short(c[1][1]) in INSERTS:
            return st.inserted.get(c[1])
        if c[0] == 'op' and c[1] in ('==', '!=') and len(c[2]) == 2:
            a, b = c[2]
            for x, y in ((a, b), (b, a)):
                if x[0] == 'call' and short(x[1]) == 'find' and y[0] == 'call' and short(y[1]) in ('end', 'cend'):
                    pres = self.here(('slot', x[2], x[3][0]), st)
                    return pres == (c[1] == '!=')
            if self.this in (a, b):
                return c[1] == '!='          # something else than itself is merged
        if c[0] == 'call' and short(c[1]) in ('contains', 'count') and c[3] and c[2]:
            return self.here(('slot', c[2], c[3][0]), st)
        return None

    def here(self, slot, st):
        return slot in st.cell or self.present

    # --- effects -------------------------------------------------------
    def run(self, items, sts):
        for i in items:
            nxt = []
            for st in sts:
                nxt += self.one(i, st)
            sts = nxt
            if len(sts) > 256:
                return sts[:256]
        return sts

    def one(self, i, st):
        if getattr(st, "left", False):
            return [st]
        if i[0] == 'set':
            loc, v = unlv(i[1]), unlv(i[2])
            c = self.canon(loc, st)
            if c is None:
                return [st]
            s = st.copy()
            if v[0] == 'new':
                s.cell[c] = {}
                s.alias[v] = c
                for k in [k for k in s.cell if k[0] == 'm' and wire.root(k) == v]:
                    del s.cell[k]
            else:
                s.cell[c] = self.val(v, st)
            return [s]
        if i[0] == 'sink':
            nm = short(i[1])
            s = st.copy()
            if nm in MERGE:
                tgt, arg = (i[2], i[3][0]) if i[2] is not None else (i[3][0], i[3][1]) if len(i[3]) > 1 else (None, None)
                c = self.canon(tgt, st) if tgt is not None else None
                if c is not None:
                    s.cell[c] = plus(self.get(c, st), {unlv(arg): 1})
            elif nm in INSERTS and i[2] is not None:
                t = unlv(('call', nm, i[2], i[3]))
                c = ('slot', t[2], self.key(t[3]))
                absent = not self.here(c, st)
                s.inserted[t] = absent
                if absent or nm == "insert_or_assign":
                    v = self.value_in(t[3])
                    s.cell[c] = {} if v[0] == 'new' else self.val(v, st)
            return [s]
        if i[0] == 'alt':
            c = unlv(i[1])
            v = self.truth(c, st)
            out = []
            for side, take in ((i[2], True), (i[3], False)):
                if v is not None and v != take:
                    continue
                s = st.copy()
                s.conds.append((c, take))
                z = c
                if z[0] == 'op' and z[1] in ('!=', '>') and z[2][1] == K(0):
                    z = z[2][0]
                if z[0] == 'op' and z[1] in ('==',) and z[2][1] == K(0):
                    z, tk = z[2][0], not take
                else:
                    tk = take
                if z[0] == 'op' and z[1] == '!':
                    z, tk = z[2][0], not tk
                if not tk:
                    s.zero.add(z)
                if z[0] == 'call' and short(z[1]) == 'empty' and tk:
                    s.zero.add(('size', z[2]))
                r = self.run(side, [s])
                ex = i[6:]
                if ex and ex[0 if take else 1]:
                    for x in r:
                        x.left = True
                out += r
            return out
        if i[0] == 'loop':
            cont = i[2][1] if i[2] is not None and i[2][0] == 'size' else None
            if ('size', unlv(cont) if cont else None) in st.zero:
                return [st]
            keep = self.present
            res = []
            for p in (False, True):
                self.present = p
                for s in self.run(i[3], [st.copy()]):
                    self.loops.append((i, unlv(cont) if cont else None, p, s, st))
                    res.append(s)
            self.present = keep
            s = st.copy()
            s.done += (unlv(cont) if cont else None,)
            for c in {c for x in res for c in x.cell if c[0] != 'slot'}:
                ds = []
                for x in res:
                    ds.append(plus(self.get(c, x), {k: -v for k, v in self.get(c, st).items()}))
                if all(d == ds[0] for d in ds) and i[2] is not None:
                    s.cell[c] = plus(self.get(c, st), {('sum', anon(i[2], i[1]), anon(k, i[1])): v for k, v in ds[0].items()})
                else:
                    s.cell[c] = {('?', i[1]): 1}
            return [s]
        return [st]


def effects(prog, F, cls=None, pvals=None):
    """the effects of F, helpers looked through"""
    def inline(G):
        return G is not F and short(G.q) not in MERGE and G.q.startswith(NSP) and (G.cls == F.cls or G.cls in MERGEABLE.get(id(prog), ()) or G.tu == F.tu and not G.cls) and \
            not any(x.q == G.q for x in RECORD.get(id(prog), ()))
    w = Wire(prog, {}, inline=inline)
    w.reach = set()
    items = w.run(F, cls, pvals)
    return items, ('this', cls or F.cls)


RECORD, MERGEABLE = {}, {}


def conc(t, env):
    """integer value of a term, or None"""
    t = unlv(t)
    if t in env:
        return env[t]
    if t[0] == 'k':
        return t[1]
    if t[0] == 'op':
        if t[1] == 'phi':
            c = conc(t[2][0], env)
            return None if c is None else conc(t[2][1 if c else 2], env)
        v = [conc(x, env) for x in t[2]]
        if t[1] == '&&' and 0 in [x if x is None else int(bool(x)) for x in v]:
            return 0
        if t[1] == '||' and any(v):
            return 1
        if None in v:
            return None
        if t[1] == '!':
            return int(not v[0])
        if t[1] in wire.OPS and len(v) == 2:
            return int(wire.OPS[t[1]](*v))
    if t[0] == 'call' and short(t[1]) in ('min', 'max') and len(t[3]) == 2:
        v = [conc(x, env) for x in t[3]]
        return None if None in v else (min if short(t[1]) == 'min' else max)(v)
    return None


def earliest(sts, ev, mine, other):
    """is the cell the earlier of the two known times on every path?  -> offending case or None"""
    for a, b in ((0, 0), (0, 5), (5, 0), (5, 7), (7, 5), (5, 5)):
        env = {mine: a, other: b, ('old', mine): a}
        want = min([x for x in (a, b) if x] or [0])
        for st in sts:
            cs = [conc(c, env) for c, take in st.conds]
            if any(x is not None and bool(x) != take for x, (c, take) in zip(cs, st.conds)):
                continue
            v = ev.get(mine, st)
            got = None
            if len(v) == 1 and list(v.values()) == [1]:
                got = conc(list(v)[0], env) if list(v)[0] != '1' else 1
            elif not v:
                got = 0
            if got != want:
                return "mine=%s, other=%s gives %s" % (("none", "5", "7")[[0, 5, 7].index(a)], ("none", "5", "7")[[0, 5, 7].index(b)], got if got is not None else "?")
    return None


def is_map(t):
    return cls_of(t).startswith(MAPS)


def field_val(prog, t):
    return prog.records.get(cls_of(t))


def check_merge(prog, r, F, other_cls):
    rec = prog.records.get(F.cls)
    pn = F.params[0]["n"]
    items, this = effects(prog, F)
    ev = Ev(this)
    sts = ev.run(items, [St()])
    o = ('param', pn)
    orec = prog.records.get(other_cls)
    flat = short(F.q) == "FlatMerge"
    fields = []
    seen, todo = set(), [orec]
    while todo:
        x = todo.pop()
        if not x or x["t"] in seen:
            continue
        seen.add(x["t"])
        fields += x["fields"]
        todo += [prog.records.get(cls_of(b["t"] if isinstance(b, dict) else b)) for b in x.get("bases") or ()]
    computed = {m["n"].lower() for m in rec["methods"]}
    name = F.q.replace(NSP, "")
    for f in fields:
        n, t = f["n"], f["t"]
        mine, his = ('m', this, n), ('m', o, n)
        if "compute" + n.replace("_", "") in computed:
            continue            # derived from the others afterwards
        if cls_of(t) in INT and other_cls == F.cls:
            r.count(obligations=1, fields=1)
            if any(x in n for x in FIRST):
                bad = earliest(sts, ev, mine, his)
                if bad:
                    r.add("%s|%s" % (F.q, n), F.where(), "%s: the merged record does not keep the earlier %s of the two (%s)" % (name, n, bad))
                continue
            for st in sts:
                got = ev.get(mine, st)
                want = {('old', mine): 1, his: 1}
                if his in st.zero:
                    want = {('old', mine): 1}
                if flat and n == "total_count":
                    # only the body is taken over: its counts, summed
                    ok = [k for k in got if k[0] == 'sum' and k[1] == ('size', ('m', o, "pos_counts")) and k[2][0] == 'm' and k[2][2] == 'count'
                          and k[2][1][0] == 'm' and k[2][1][2] == 'second' and k[2][1][1][0] == 'elem' and got[k] == 1]
                    if len(ok) == 1 and set(got) == {('old', mine), ok[0]} and got[('old', mine)] == 1:
                        continue
                elif got == want:
                    continue
                r.add("%s|%s" % (F.q, n), F.where(), "%s: %s becomes %s, not the sum of both records'" % (name, n, lin(got)))
        elif is_map(t):
            if flat and n == "callsites":
                continue
            if other_cls != F.cls and not any(x in cls_of(t) for x in ("unsigned long>>>",)):
                continue
            if "timestamp" in n:
                continue
            r.count(obligations=2, maps=1)
            ok = {False: [], True: []}
            for i, cont, p, s, before in ev.loops:
                if cont != his:
                    continue
                el = ('elem', his, i[1])
                c = [k for k in s.cell if k[0] == 'slot' and wire.root(k[1]) == this]
                want = ('slot', mine, ('m', el, 'first'))
                alt = ('slot', mine, el)
                bad = [k for k in c if k != want and k[1] != mine] and [k for k in c if k != want]
                v = ev_get(ev, p, want, s)
                exp = {('m', el, 'second'): 1}
                if p:
                    exp = plus(exp, {('old', want): 1})
                ok[p].append(v == exp or v == {k: v for k, v in exp.items() if k not in s.zero} or (('m', el, 'second') in s.zero and v == ({('old', want): 1} if p else {})))
            if any(st.done.count(his) != 1 and ('size', his) not in st.zero for st in sts):
                r.add("%s|%s" % (F.q, n), F.where(), "%s: the entries of %s are not merged exactly once on every path" % (name, n))
                continue
            for p in (False, True):
                if len({id(x[0]) for x in ev.loops if x[1] == his}) != 1 or not ok[p] or not all(ok[p]):
                    r.add("%s|%s" % (F.q, n), F.where(), "%s: entries of %s %s are not merged into the entry of the same key exactly once" % (
                        name, n, "already known" if p else "not known before"))
        elif prog.records.get(cls_of(t)) and any(m["n"] in MERGE for m in prog.records[cls_of(t)]["methods"]):
            r.count(obligations=1, parts=1)
            for st in sts:
                if ev.get(mine, st) != {('old', mine): 1, his: 1}:
                    r.add("%s|%s" % (F.q, n), F.where(), "%s: part %s is not merged exactly once" % (name, n))
    r.sample("%s (%s): %d fields" % (name, F.where(), len(fields)))


def ev_get(ev, p, c, st):
    keep = ev.present
    ev.present = p
    v = ev.get(c, st)
    ev.present = keep
    return v


def lin(v):
    t = []
    for k, n in sorted(v.items(), key=str):
        s = "its old value" if k[0] == 'old' else "..." if k == '1' else show(k)
        t.append(s if n == 1 else "%d * %s" % (n, s))
    return (" + ".join(t) or "zero")[:160]


def check_record(prog, r, F, enum):
    """a function through which a profile reader adds what it has read"""
    pv = [K(enum["AFDOPROFILE"]) if "DataSource" in p["t"] else ('param', p["n"]) for p in F.params]
    items, this = effects(prog, F, None, pv)
    ev = Ev(this)
    name = F.q.replace(NSP, "")
    used = {}
    scale = [p["n"] for p in F.params if cls_of(p["t"]) in INT and any(x in p["n"] for x in ("dup", "factor"))]
    nums = [p["n"] for p in F.params if cls_of(p["t"]) in INT and p["n"] not in scale]

    held = {f["n"] for c in MERGEABLE[id(prog)] for f in prog.records[c]["fields"]}

    def amount(v):
        v = unlv(v)
        if v[0] == 'param':
            return v[1]
        if v[0] == 'op' and v[1] == 'phi':
            a, b = amount(v[2][1]), amount(v[2][2])
            return a if a == b else None
        if v[0] == 'op' and v[1] == '*':
            x = [y[1] for y in v[2] if y[0] == 'param']
            if len(x) == 2 and len([y for y in x if y in scale]) == 1:
                return [y for y in x if y not in scale][0]
        return None

    top = items

    def visit(items, inloop):
        for i in items:
            if i[0] == 'loop':
                visit(i[3], True)
            elif i[0] == 'alt':
                visit(i[2], inloop)
                visit(i[3], inloop)
            elif i[0] == 'set':
                loc, v = unlv(i[1]), unlv(i[2])
                leaf = loc[2] if loc[0] == 'm' else loc[1][2] if loc[0] == 'at' and loc[1][0] == 'm' else None
                if leaf not in held:
                    continue
                if loc[0] not in ('m', 'at') or v[0] == 'new' or v == K(0) or not any(amount(x) for x in wire.terms(v) if isinstance(x, tuple) and x):
                    continue
                where = "%s:%s" % (i[4].file if False else F.where().split(":")[0], i[3].line if i[3] is not None else "?")
                r.count(obligations=1, stores=1)
                if any(x in str(leaf) for x in FIRST):
                    sts = ev.run(top, [St()])
                    bad = [earliest(sts, ev, c, ('param', n)) for n in nums for c in {c for s in sts for c in s.cell if c[0] == 'm' and c[2] == leaf}]
                    used.setdefault([n for n in nums if any(x in n for x in FIRST)][0] if nums else None, []).append(leaf)
                    if not bad or any(bad):
                        r.add("%s|%s" % (F.q, leaf), F.where(), "%s: a second profile's %s replaces the one already known even if later or unknown (%s)" % (
                            name, leaf, (bad + ["not followed"])[0]))
                    continue
                d = None
                if v[0] == 'op' and v[1] == '+' and loc in v[2]:
                    d = amount(v[2][1] if v[2][0] == loc else v[2][0])
                elif v[0] == 'op' and v[1] == 'phi':
                    d = None
                if d is None or d not in nums:
                    r.add("%s|%s" % (F.q, leaf), F.where(), "%s: %s is set to %s: a count read earlier for the same place is lost" % (name, leaf, show(v)[:120]))
                    continue
                used.setdefault(d, []).append(leaf)
            elif i[0] == 'sink':
                for a in i[3]:
                    d = amount(a) if isinstance(a, tuple) and a else None
                    if d in nums and i[1].startswith(NSP):
                        used.setdefault(d, []).append(short(i[1]) + "()")
    visit(items, False)
    if not used and any("working" in x for x in map(str, wire.terms(items))):
        return used
    for n in nums:
        r.count(obligations=1)
        if n not in used:
            r.add("%s|%s" % (F.q, n), F.where(), "%s: the %s passed in is recorded nowhere" % (name, n))
        elif len(set(used[n])) != len(used[n]) and short(F.q) != "TraverseInlineStack":
            r.add("%s|%s|twice" % (F.q, n), F.where(), "%s: the %s passed in is added twice to %s" % (name, n, [x for x in used[n] if used[n].count(x) > 1][0]))
    return used


def check_highest(prog, r, F, enum):
    """while machine samples are converted, the place has the highest count of its instructions; instructions add up"""
    pv = [K(enum["PERFDATA"]) if "DataSource" in p["t"] else ('param', p["n"]) for p in F.params]
    items, this = effects(prog, F, None, pv)
    ev = Ev(this)
    sts = ev.run(items, [St()])
    name = F.q.replace(NSP, "")
    for leaf, rule in (("count", max), ("num_inst", lambda a, b: a + b)):
        cells = {c for s in sts for c in s.cell if c[0] == 'm' and c[2] == leaf}
        stored = [i for i in flatten(items) if i[0] == 'set' and unlv(i[1])[0] == 'm' and unlv(i[1])[2] == leaf]
        r.count(obligations=1)
        bad = None
        for c in cells or [None]:
            amt = {t for i in stored for t in wire.terms(unlv(i[2])) if isinstance(t, tuple) and t and t[0] in ('param', 'op') and 'phi' in t[:2] or t == ('param', leaf)}
            for a, b in ((3, 5), (5, 3), (4, 4), (0, 2)):
                env = {c: a, ('old', c): a}
                env.update({t: b for t in amt})
                for st in sts:
                    if any(x is not None and bool(x) != take for x, (k, take) in [(conc(k, env), (k, take)) for k, take in st.conds]):
                        continue
                    if any(conc(k, env) is None and take for k, take in st.conds if k[0] != 'op' or k[1] not in ('>', '<', '>=', '<=')):
                        continue        # leaves without recording
                    v = ev.get(c, st) if c is not None else {}
                    got = sum(n * (1 if k == '1' else conc(k, env) if conc(k, env) is not None else 10 ** 6) for k, n in v.items())
                    if got != rule(a, b):
                        bad = bad or (a, b, got)
        if c is None or bad:
            r.add("%s|%s|convert" % (F.q, leaf), F.where(), "%s: converting samples, %s of a place is not the %s of what its instructions have%s" % (
                name, leaf, "highest" if leaf == "count" else "sum", " (%d and %d give %d)" % bad if bad else ""))


def flatten(items):
    for i in items:
        if i[0] == 'alt':
            yield from flatten(i[2])
            yield from flatten(i[3])
        elif i[0] == 'loop':
            yield from flatten(i[3])
        else:
            yield i


def check_levels(prog, r, F, enum):
    """every level of the inline stack gets the count once"""
    pv = [K(enum["AFDOPROFILE"]) if "DataSource" in p["t"] else ('param', p["n"]) for p in F.params]
    items, this = effects(prog, F, None, pv)
    nums = [p["n"] for p in F.params if cls_of(p["t"]) in INT]
    flat, inner = [], []

    def visit(items, out, where):
        for i in items:
            if i[0] == 'loop':
                visit(i[3], inner if where == 0 else out, 1)
            elif i[0] == 'alt':
                ex = i[6:] or (None, None)
                if where or ex[0] or ex[1]:
                    visit(i[2], out, where)
                    visit(i[3], out, where)
                else:
                    a, b = [], []
                    visit(i[2], a, where)
                    visit(i[3], b, where)
                    if a != b:
                        out.append("?")
                    else:
                        out.extend(a)
            elif i[0] == 'set':
                loc, v = unlv(i[1]), unlv(i[2])
                if v[0] == 'op' and v[1] == '+' and any(('param', n) in v[2] for n in nums):
                    out.append(loc[2] if loc[0] == 'm' else '?')
    visit(items, flat, 0)
    r.count(obligations=2)
    if flat != ["total_count"] or inner != ["total_count"]:
        r.add("%s|levels" % F.q, F.where(), "%s: a count is not added exactly once to the function and to every inlined level (function: %s, level: %s)" % (
            F.q.replace(NSP, ""), flat or "not", inner or "not"))


def check_transfer(prog, r, F):
    """counts moved from one table to another keep amount and key"""
    items, this = effects(prog, F)
    name = F.q.replace(NSP, "")
    n = 0

    def visit(items, elems):
        nonlocal n
        for i in items:
            if i[0] == 'loop':
                c = unlv(i[2][1]) if i[2] is not None and i[2][0] == 'size' else None
                visit(i[3], elems + [('elem', c, i[1])])
            elif i[0] == 'alt':
                visit(i[2], elems)
                visit(i[3], elems)
            elif i[0] == 'set':
                loc, v = unlv(i[1]), unlv(i[2])
                if loc[0] != 'at':
                    continue
                el = elems[-1] if elems else None
                r.count(obligations=1, transfers=1)
                n += 1
                leaf = loc[1][2] if loc[1][0] == 'm' else "?"
                if el is None or v != ('op', '+', (loc, ('m', el, 'second'))):
                    r.add("%s|%s" % (F.q, leaf), F.where(), "%s: an entry of %s becomes %s, not its old value plus the count moved" % (name, leaf, show(v)[:120]))
                    continue
                src = el[1][2].strip("_") if el[1][0] == 'm' else "?"
                if src != leaf.strip("_"):
                    r.add("%s|%s|%s" % (F.q, leaf, src), F.where(), "%s: counts of %s are filed in %s" % (name, src, leaf))
                key = parts(loc[2])
                want = ('m', el, 'first')
                subs = [unwrap(k) for k in key]
                good = subs == [want] if len(key) == 1 else subs == [('m', want, 'first'), ('m', want, 'second')]
                maps = {map_of(k) for k in key}
                if not good or len(maps) != 1:
                    r.add("%s|%s|key" % (F.q, leaf), F.where(), "%s: the key in %s is not that of the count moved (both ends translated alike)" % (name, leaf))
    visit(items, [])
    return n


def check_absorb(prog, r, F):
    """a method that adds part of another record to this one keeps what is there"""
    others = {p["n"] for p in F.params if cls_of(p["t"]) in MERGEABLE[id(prog)]}
    held = {f["n"] for c in MERGEABLE[id(prog)] for f in prog.records[c]["fields"] if cls_of(f["t"]) in INT or is_map(f["t"])}
    items, this = effects(prog, F)
    n = 0

    def visit(items):
        nonlocal n
        for i in items:
            if i[0] == 'loop':
                visit(i[3])
            elif i[0] == 'alt':
                visit(i[2])
                visit(i[3])
            elif i[0] == 'set':
                loc, v = unlv(i[1]), unlv(i[2])
                root = loc
                names = []
                while root[0] in ('m', 'at'):
                    if root[0] == 'm':
                        names.append(root[2])
                    root = root[1]
                if root != this or not names or names[0] not in held:
                    continue
                ts = [x for x in wire.terms(v) if isinstance(x, tuple) and x]
                if not any(x[0] == 'm' and x[1] == ('param', o) or x[0] == 'm' and unlv(x[1]) == ('deref', ('param', o)) for x in ts for o in others):
                    continue
                n += 1
                r.count(obligations=1, stores=1)
                if loc not in ts and ('old', loc) not in ts and not any(x in names for x in FIRST):
                    r.add("%s|absorb %s" % (F.q, names[0]), F.where(), "%s: %s is overwritten with %s: what was counted there before is lost" % (
                        F.q.replace(NSP, ""), show(loc)[:60], show(v)[:60]))
    visit(items)
    return n


def parts(k):
    if k[0] == 'new' and 'pair' in k[1]:
        return list(k[2])
    if k[0] == 'call' and short(k[1]) == 'make_pair':
        return list(k[3])
    return [k]


def unwrap(k):
    return k[3][0] if k[0] == 'call' and len(k[3]) == 1 else k


def map_of(k):
    return k[:3] if k[0] == 'call' and len(k[3]) == 1 else None


def check(prog, tier):
    r = Result("effect extraction: everything a merge, read or transfer function does to the counters is derived from its code and "
               "must be: each field, each table entry and each count added exactly once at its own place")
    merges = [F for F in prog.functions if F.blocks and F.cls and short(F.q) in MERGE and len(F.params) == 1 and F.cls.startswith(NSP)
              and F.cls in prog.records and (cls_of(F.params[0]["t"]) == F.cls or cls_of(F.params[0]["t"]) in bases(prog, F.cls)) and "const" in F.params[0]["t"]]
    r.require(any(short(F.q) == "Merge" for F in merges), "merge functions")
    MERGEABLE[id(prog)] = {F.cls for F in merges}
    for F in merges:
        check_merge(prog, r, F, cls_of(F.params[0]["t"]))
    r.count(merge_functions=len(merges))
    en = next((e for e in prog.enums.values() if e["q"].endswith("SymbolMap::DataSource") or "AFDOPROFILE" in str(e)), None)
    r.require(en is not None, "data sources")
    enum = {c["n"]: c["v"] for c in en.get("enumerators") or en.get("consts") or en.get("vals") or ()}
    rec = set()
    for F in prog.functions:
        if not F.cls or not any("ProfileReader" in c for c in [F.cls] + list(bases(prog, F.cls))):
            continue
        for n in F.walk():
            if n.k == "CXXMemberCallExpr":
                for G in prog.callee(n, F):
                    if G.cls == NSP + "SymbolMap" and G.blocks and any(cls_of(p["t"]) in INT for p in G.params):
                        rec.add(G)
    walkers = {G for F in rec for n in F.walk() if n.k == "CXXMemberCallExpr" for G in prog.callee(n, F)
               if G.cls == NSP + "SymbolMap" and any("DataSource" in p["t"] for p in G.params)}
    r.require(len(rec) >= 3, "recording functions")
    RECORD[id(prog)] = rec | walkers
    for F in sorted(rec - walkers, key=lambda F: F.q):
        used = check_record(prog, r, F, enum)
        r.count(recording_functions=1)
        for G in walkers:
            if G in {g for n in F.walk() if n.k == "CXXMemberCallExpr" for g in prog.callee(n, F)}:
                r.count(obligations=1)
                # what is added to a place is added to the totals above it; a target's share already is
                own = [n for n, u in used.items() if "count" in u]
                passed = [n for n, u in used.items() if short(G.q) + "()" in u]
                if own != passed:
                    r.add("%s|total" % F.q, F.where(), "%s: %s" % (F.q.replace(NSP, ""), "the count added to a place is not added to the functions around it"
                                                                  if own else "an amount that is part of a place's count is added to the totals again"))
        if "count" in used.get("count", ()):
            check_highest(prog, r, F, enum)
    for G in walkers:
        check_levels(prog, r, G, enum)
    nt = 0
    for F in prog.functions:
        if F.cls and F.cls.startswith(NSP) and F.blocks and short(F.q) == "AggregatePerFunctionProfile":
            nt += check_transfer(prog, r, F)
    for F in prog.functions:
        if F.cls in MERGEABLE[id(prog)] and F.blocks and F not in merges and not F.d.get("ctor") and not F.q.split("::")[-1].startswith("operator") and any(
                cls_of(p["t"]) in MERGEABLE[id(prog)] for p in F.params):
            n = check_absorb(prog, r, F)
            r.count(absorbing=int(n > 0))
    r.require(nt >= 3, "transfer of counts to functions")
    return r


def bases(prog, c):
    out, todo = set(), [c]
    while todo:
        x = prog.records.get(todo.pop())
        for b in (x or {}).get("bases") or ():
            t = cls_of(b["t"] if isinstance(b, dict) else b)
            if t not in out:
                out.add(t)
                todo.append(t)
    return out
