"""The layout files: what is written to the cluster file and the symbol order file, as text templates over the layout."""
import wire
from frontend import Node
from ir import args, is_call
from wire import Wire, K, show, short, strip
from core import Result

LEVEL = "other"
ROUNDS = {"all": [0, 0], "one": [0, 4], "none": [4, 4]}     # block index each cluster of the function starts with
SPEC = {  # directives as LLVM's basic block sections reader takes them
    "0": dict(head="", func="!", sep="/", mod=" M=", cluster="!!", clone=None),
    "1": dict(head="v1\n", func="f ", sep=" ", mod="m ", cluster="c", clone="p"),
}
SAME = {"str", "StringRef", "string", "string_view", "c_str", "data", "basic_string", "basic_string_view", "value", "operator*", "move", "to_string",
        "AlphaNum", "Streamable", "get", "forward", "optional", "make_optional", "operator basic_string_view", "operator string_view"}


class Streams(Wire):
    """evaluation with what is inserted into streams as tokens"""

    def __init__(self, prog):
        super().__init__(prog, {})
        self.rets = True
        self.reach = writers(prog)
        self.room = {}          # tables made with as many entries as something else has

    def construct(self, n, fr, at=None):
        cls = n.get("cls") or ""
        if at is not None and short(cls) == "vector":
            a = [c for c in n.ch or () if isinstance(c, Node) and c.k != "CXXDefaultArgExpr"]
            if a and any(x in " " + (a[0].t or "") + " " + (strip(a[0]).t or "") for x in (" int", " long", " unsigned", "size_t", "size_type")):
                self.store[('size', at)] = self.room[at] = self.val(a[0], fr)
                return at
        if at is not None and "stream" in short(cls):
            return at
        return super().construct(n, fr, at)

    def call(self, n, fr):
        if n.k == "CXXOperatorCallExpr" and n.op == "<<" and "stream" in (n.t or ""):
            a = n.ch[1:]
            l = self.val(a[0], fr) if is_call(strip(a[0])) else self.loc(a[0], fr)
            v = self.val(a[1], fr)
            self.items.append(('out', l, v, n, fr["F"]))
            return l
        if n.k == "CXXOperatorCallExpr" and n.op == "()" and len(n.ch) > 1:
            o = self.val(n.ch[1], fr)
            while o[0] == 'new' and len(o[2]) == 1:
                o = o[2][0]
            if o[0] == 'lambda' and o[1:] in self.made:
                lam = [g for g in self.prog.lambdas.get(o[1], ()) if g.body is not None]
                if len(lam) == 1:
                    return self.enter(lam[0], n, None, n.ch[2:], fr, outer=self.made[o[1:]])
        if n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n in ("write", "put") and "stream" in (n.cls or ""):
            l = self.loc(n.ch[0].ch[0], fr)
            self.items.append(('out', l, self.val(args(n)[0], fr), n, fr["F"]))
            return l
        if n.k == "CXXOperatorCallExpr" and n.op == "+=" and "basic_string" in (n.cls or n.t or "") or \
                n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n == "append" and "basic_string" in (n.cls or "") and len(args(n)) == 1:
            a = n.ch[1:] if n.op == "+=" else [n.ch[0].ch[0], args(n)[0]]
            l = self.loc(a[0], fr)
            self.assign(l, ('op', '+', (self.load(l), self.val(a[1], fr))), n, fr["F"])
            return l
        if n.k == "CXXMemberCallExpr" and short(n.f) in ("resize", "assign") and "vector" in (n.cls or "") and args(n) and n.ch[0].k == "MemberExpr" and n.ch[0].ch:
            l = self.loc(n.ch[0].ch[0], fr)
            if l[0] == 'var' and self.store.get(l) in (None, ('list', ())):
                self.store.pop(l, None)
                self.store[('size', l)] = self.room[l] = self.val(args(n)[0], fr)
                return K(0)
        if short(n.f) == "StrAppend" and len(args(n)) > 1:
            l = self.val(args(n)[0], fr)
            if l[0] == 'var':
                v = self.load(l)
                for a in args(n)[1:]:
                    v = ('op', '+', (v, self.val(a, fr)))
                self.assign(l, v, n, fr["F"])
                return K(0)
        if short(n.f) in ("emplace_back", "push_back", "emplace", "try_emplace", "insert") and (n.cls or "").startswith(("std::", "absl::")):
            keep = {l: self.store.get(l) for l in (self.loc(a, fr) for a in args(n) if strip(a).k == "DeclRefExpr")}
            t = super().call(n, fr)
            for l, v in keep.items():       # entries are made from the arguments, which stay
                if v is None:
                    self.store.pop(l, None)
                else:
                    self.store[l] = v
            return t
        return super().call(n, fr)


def writers(prog):
    """functions (and the lambdas in them) that insert into a stream they were given"""
    c = prog.__dict__.get("_p25_writers")
    if c is None:
        c = set()
        for F in prog.functions:
            if F.body is not None and any("stream" in (p.get("t") or "") and "&" in (p.get("t") or "") for p in F.params):
                c.add(F)
        for F in prog.functions:
            if F.body is not None and F.name in ("ForEachNodeRef", "ForEachOutEdgeRef", "ForEachInEdgeRef", "VisitEachNodeRef"):
                c.add(F)
        prog.__dict__["_p25_writers"] = c
    return c


def subs(t):
    if isinstance(t, tuple):
        if t:
            yield t
        for x in t:
            yield from subs(x)


def bare(t):
    if isinstance(t, tuple):
        if t and t[0] == 'lv':
            return bare(t[1])
        return tuple(bare(x) for x in t)
    return t


def records(prog, F, name):
    """field names, in order, of the records a braced value may be"""
    for x in prog.records.values():
        fs = [f["n"] for f in x.get("fields") or ()]
        if fs and (name == x["q"] or name == '{}' and F.d.get("file") == x.get("file") or name == '{}' and F.name in x["q"]):
            yield fs


class Where:
    """a condition, whatever it is called in the rounds of a loop"""

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Where) and o.i[4] is self.i[4]

    def __hash__(self):
        return 1


def nested(ps):
    for p in ps:
        yield p
        if isinstance(p, tuple):
            for x in p:
                if isinstance(x, tuple):
                    yield from nested(x)


class Writer:
    def __init__(self, r, prog, F, consts, enc):
        self.r, self.prog, self.F = r, prog, F
        w = self.w = Streams(prog)
        w.reach = w.reach | self.entered(F)
        this = ('this', F.cls)
        for k, v in consts.items():
            w.store[('m', ('m', this, enc), k)] = v
        self.items = w.run(F)
        self.sets, self.parts = {}, {}
        self.collect(self.items, (), ())

    def entered(self, F):
        """further functions that are part of the one looked at"""
        return set()

    def collect(self, items, loops, conds):
        for i in items:
            if i[0] == 'set':
                l = i[1]
                while l[0] == 'lv':
                    l = l[1]
                if l[0] == 'm' and l[1][0] == 'at' and l[1][1][0] == 'var':
                    self.parts.setdefault((l[1][1], l[2]), []).append((conds, bare(i[2])))
                    if l[1][1] not in self.sets:
                        self.sets[l[1][1]] = [(bare(l[1][2]), ('fields',), loops, i)]
                    elif bare(l[1][2]) != self.sets[l[1][1]][0][0]:
                        self.sets[l[1][1]].append((bare(l[1][2]), ('fields',), loops, i))
                elif l[0] == 'at' and l[1][0] == 'var':
                    self.sets.setdefault(l[1], []).append((bare(l[2]), bare(i[2]), loops, i))
            elif i[0] == 'sink' and short(i[1]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and i[2] is not None and i[2][0] == 'var':
                a = i[3]
                if len(a) == 1 and a[0][0] in ('new', 'op') and len(a[0][2]) == 2:
                    a = a[0][2]
                if len(a) == 2:
                    self.sets.setdefault(i[2], []).append((bare(a[0]), bare(a[1]), loops, i))
            elif i[0] == 'loop':
                self.collect(i[3], loops + (i,), conds)
            elif i[0] == 'alt':
                self.collect(i[2], loops, conds + ((i[1], 1),))
                self.collect(i[3], loops, conds + ((i[1], 0),))

    # --- what a term denotes --------------------------------------------
    def path(self, t, env):
        t = self.res(t, env)
        return self.show(t)

    def field(self, v, f):
        if v[0] in ('new', 'op') and isinstance(v[2], tuple):
            if f in ("first", "second") and len(v[2]) == 2:
                return v[2][("first", "second").index(f)]
            if v[0] == 'op' and v[1] == '{}' or v[0] == 'new':
                for fs in records(self.prog, self.F, v[1]):
                    if f in fs and len(fs) == len(v[2]):
                        return v[2][fs.index(f)]
        return None

    def res(self, t, env):
        """entries of the tables filled here replaced by what was put in"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'lv':
            c = self.carried(t, env)
            return self.res(t[1] if c is None else c, env)
        if t[0] == 'call' and short(t[1]) in ("CheckNotNull", "CheckNotnull") and t[3]:
            return self.res(t[3][-1], env)
        if t[0] == 'op' and t[1] == 'phi':
            c = self.ev(t[2][0], env)
            if c is not None:
                return self.res(t[2][1 if c else 2], env)
        if t[0] == 'elem' and t[1][0] == 'var' and t[1] in self.sets:
            return ('entry', t[1], self.keyed(t[1]))
        if t[0] == 'at' and t[1][0] == 'var' and t[1] in self.sets and isinstance(t[2], tuple) and t[2][0] == 'idx':
            return ('entry', t[1], self.keyed(t[1]))
        if t[0] == 'm':
            b = self.res(t[1], env)
            if b[0] == 'entry':
                if b[2] == "map" and t[2] in ("first", "second"):
                    s = self.sets[b[1]]
                    return self.res(s[0][0 if t[2] == "first" else 1], env)
                if (b[1], t[2]) in self.parts:
                    v = ('new', 'unset', ())
                    for cs, x in self.parts[(b[1], t[2])]:
                        ok = [self.ev(c, env) for c, want in cs]
                        if None in ok:
                            return ('m', b, t[2])
                        if all(bool(o) == bool(c[1]) for o, c in zip(ok, cs)):
                            v = x
                    return self.res(v, env)
                b = self.res(self.sets[b[1]][0][1], env)
            v = self.field(b, t[2])
            return self.res(v, env) if v is not None else ('m', b, t[2])
        if t[0] == 'call' and len(t) > 3 and t[2] is not None and short(t[1]) not in ("value", "operator*", "has_value"):
            b = self.res(t[2], env)
            return ('call', t[1], b, tuple(self.res(a, env) for a in t[3]))
        r = tuple(self.res(x, env) if isinstance(x, tuple) else x for x in t)
        return r

    def carried(self, t, env):
        """a variable of the round: as before the loop in the first, as the round before left it in the others"""
        q, uid = t[1], t[2] if len(t) > 2 else None
        p = env["pos"].get(uid)
        if q[0] != 'var' or p is None or self.counter(q):
            return None
        if p == 0:
            for i in self.loops(self.items):
                if i[1] == uid:
                    return i[4].get(q)
            return None
        v = self.w.updates.get(uid, {}).get(q)
        return v if v is not None and not any(x == t for x in subs(v)) else None

    def keyed(self, v):
        return "map" if any("map" in (d.get("t") or "") for k, d in self.F.vars.items() if k == v[1]) else "vec"

    def show(self, t):
        if not isinstance(t, tuple) or not t:
            return str(t)
        if t[0] == 'entry':
            return self.show(self.sets[t[1]][0][1]) if t[2] != "map" else "entry"
        if t[0] == 'm':
            return self.show(t[1]) + "." + t[2]
        if t[0] == 'elem':
            return self.show(t[1]) + "[]"
        if t[0] == 'at':
            if t[2][0] == 'idx' or self.counter(t[2]):
                return self.show(t[1]) + "[]"
            return "%s[%s]" % (self.show(t[1]), self.show(t[2]))
        if t[0] in ('call', 'new'):
            n = short(t[1])
            a = t[-1]
            if n in SAME and len(a) == 0 and t[0] == 'call' and t[2] is not None:
                return self.show(t[2])
            if n in SAME and a and (len(a) == 1 or a[-1][0] == 'new' and short(a[-1][1]) == "allocator"):
                return self.show(a[0])
            b = self.show(t[2]) + "." if t[0] == 'call' and t[2] is not None and n != "GetCfgByIndex" else ""
            return "%s%s(%s)" % (b, n, ",".join(self.show(x) for x in a))
        if t[0] == 'param':
            return t[1]
        if t[0] == 'idx' or self.counter(t):
            return "#"
        if t[0] == 'k':
            return str(t[1])
        if t[0] == 'op' and t[1] == '*' and len(t[2]) == 1:
            return self.show(t[2][0])
        return show(t)

    def counter(self, t):
        """a variable that starts at 0 and grows by one with every round of the innermost loop that changes it"""
        if t[0] == 'idx':
            return True
        for uid, up in self.w.updates.items():
            for q, v in up.items():
                if bare(q) == t and v[0] == 'op' and v[1] == '+' and bare(v[2][0]) == t and v[2][1] == K(1) and t[0] == 'var':
                    return True
        return False

    # --- conditions -----------------------------------------------------
    def ev(self, t, env):
        if not isinstance(t, tuple) or not t:
            return None
        if "atom" in env:
            v = env["atom"](t)
            if v is not None:
                return v
        if t[0] == "lv":
            c = self.carried(t, env)
            if c is not None:
                return self.ev(c, env)
            if t[1][0] != "var":
                return self.ev(t[1], env)
            return env["pos"].get(t[2]) if self.counter(t[1]) else None
        if t[0] == 'first' and len(t) > 2:
            for bb in ROUNDS[env["entry"]]:
                e = dict(env, fields=dict(env["fields"], bb_index=bb))
                c, a, b = t[2][2]
                v = self.ev(c, e)
                if v is None:
                    return None
                hit = a if v else b
                if hit != ('none',):
                    return self.ev(hit, e)
            return self.ev(t[3], env)
        if t[0] == 'k':
            return t[1]
        if t[0] == 'str':
            return None
        if t[0] == 'op':
            if t[1] == 'phi':
                c = self.ev(t[2][0], env)
                return None if c is None else self.ev(t[2][1 if c else 2], env)
            if t[1] in ('&&', '||'):
                x = [self.ev(y, env) for y in t[2]]
                if t[1] == '&&':
                    return 0 if any(v == 0 and v is not None for v in x) else 1 if None not in x else None
                return 1 if any(v for v in x) else 0 if None not in x else None
            x = [self.ev(y, env) for y in t[2]]
            if None in x:
                return None
            if t[1] == '!':
                return int(not x[0])
            if t[1] in wire.OPS and len(x) == 2:
                return int(wire.OPS[t[1]](*x))
            return None
        if t[0] == 'idx':
            return env["pos"].get(t[1], 0)
        if t[0] == 'sum':
            return env["placed"] if any(x[-1:] == ('full_bb_ids',) for x in subs(t[2])) and not any(x[:1] == ('op',) for x in subs(t[2])) else None
        if t[0] == 'size':
            p = self.path(t[1], env)
            return env["nodes"] if p.endswith(".nodes_") else env["size"] if t[1][0] != 'var' or t[1] in self.sets else None
        if t[0] == 'm':
            if t[2] == "bb_index" and not any(x in self.path(t, env) for x in ("full_bb_ids.front()", "full_bb_ids[0]", "full_bb_ids.begin()", "full_bb_ids.at(0)")):
                return None
            return env["fields"].get(t[2])
        if t[0] == 'call':
            n = short(t[1])
            if n == "verbose_cluster_output":
                return env["verbose"]
            if n in ("has_value", "operator bool"):
                b = self.res(t[2], env)
                if b[0] == 'm' and b[2] == "module_name_":
                    return env["module"]
                if b[0] == 'call' and short(b[1]) == "make_optional":
                    return 1
                return 0 if b[0] == 'new' and not b[2] or 'nullopt' in str(b) else 1 if b[0] in ('new', 'idx', 'lv', 'var') else None
            if n == "empty" and t[2] is not None:
                s = self.ev(('size', t[2]), env)
                return None if s is None else int(s == 0)
            if n in ("any_of", "c_any_of", "none_of", "c_none_of", "all_of", "c_all_of"):
                c, l = t[3][0], t[3][-1]
                if not self.path(c if c[0] != 'call' else c[2], env).endswith(".clusters") or l[0] != 'lambda':
                    return None
                P = lambda v: self.pred(l, dict(env, fields=dict(env["fields"], bb_index=v)))
                with_, without = P(0), P(4)
                if None in (with_, without):
                    return None
                some = ROUNDS[env["entry"]]
                vals = [bool(with_ if v == 0 else without) for v in some]
                return int(any(vals) if "any" in n else not any(vals) if "none" in n else all(vals))
        if t[0] == 'after' and len(t) == 3 and t[2] in self.w.updates:
            return self.settled(t, env)
        if t[0] == 'var':
            return None
        return None

    def settled(self, t, env):
        """a flag after a loop over the clusters"""
        q, uid = t[1], t[2]
        v = self.w.updates[uid].get(q)
        if v is None:
            return None
        cur = self.start(q, uid)
        if cur is None:
            return None
        for bb in ROUNDS[env["entry"]]:
            cur = self.step(v, q, cur, dict(env, fields=dict(env["fields"], bb_index=bb)))
            if cur is None:
                return None
        return cur

    def step(self, v, q, cur, env):
        def f(t):
            if t == ('lv', q, t[-1]) if isinstance(t, tuple) and t else False:
                return K(cur)
            return tuple(f(x) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t
        return self.ev(f(v), env)

    def start(self, q, uid):
        for i in self.loops(self.items):
            if i[1] == uid and q in i[4]:
                return self.ev(i[4][q], dict(ENV))
        for d, x in self.F.vars.items():
            if q[0] == 'var' and q[1] == d and isinstance(x.get("init"), Node):
                v = strip(x["init"])
                from ir import cval
                return cval(v)
        return None

    def loops(self, items):
        for i in items:
            if i[0] == 'loop':
                yield i
            for x in i:
                if isinstance(x, list):
                    yield from self.loops(x)

    def pred(self, l, env):
        G = [g for g in self.prog.lambdas.get(l[1], ()) if g.body is not None]
        if len(G) != 1:
            return None
        w = Streams(self.prog)
        it = w.run(G[0])
        rets = [i for i in it if i[0] == 'ret']
        return self.ev(rets[0][1], env) if len(rets) == 1 and len(it) == 1 else None

    # --- text -----------------------------------------------------------
    def text(self, t, env):
        """pieces: str | ('val', path) | ('join', path, separator, part)"""
        t = self.res(t, env)
        if t[0] == 'op' and t[1] == 'phi':
            c = self.ev(t[2][0], env)
            if c is not None:
                return self.text(t[2][1 if c else 2], env)
        if t[0] == 'str':
            return [t[1]]
        if t[0] == 'k':
            return [chr(t[1])] if 0 < t[1] < 128 else [str(t[1])]
        if t[0] == 'op' and t[1] == '+':
            return self.text(t[2][0], env) + self.text(t[2][1], env)
        if t[0] in ('call', 'new'):
            n, a = short(t[1]), t[-1]
            if n in ("StrCat", "concat"):
                return [p for x in a for p in self.text(x, env)]
            if n in ("join", "StrJoin", "interleave") and len(a) >= 2:
                sep = self.text(a[1], env)
                part = "[]"
                if len(a) == 3:
                    part = self.part(a[2], env)
                return [('join', self.show(a[0]), sep[0] if len(sep) == 1 else None, part)]
            if n in SAME and len(a) == 1:
                return self.text(a[0], env)
            if n in SAME and not a and t[0] == 'call' and t[2] is not None:
                return self.text(t[2], env)
            if n == "StreamFormat" and a:
                s = next((x for x in subs(a[0]) if x[0] == 'str'), None)
                return [s[1]] if s else [('val', "?")]
            if n == "endl" or n == "flush":
                return ["\n"] if n == "endl" else []
        if t[0] == 'g' and short(str(t[1])) in ("endl", "flush"):
            return ["\n"] if short(str(t[1])) == "endl" else []
        return [('val', self.show(t))]

    def part(self, l, env):
        """what a formatter of a join appends for an element"""
        if l[0] != 'lambda':
            return "?"
        G = [g for g in self.prog.lambdas.get(l[1], ()) if g.body is not None]
        if len(G) != 1 or len(G[0].params) != 2:
            return "?"
        w = Streams(self.prog)
        it = w.run(G[0])
        app = [i for i in it if i[0] == 'sink' and short(i[1]) in ("StrAppend", "append", "push_back")]
        if len(app) != 1 or len(it) != 1:
            return "?"
        a = [x for x in app[0][3] if x != ('param', G[0].params[0]["n"])]
        return self.show(a[0]).replace(G[0].params[1]["n"], "[]", 1) if len(a) == 1 else "?"

    def emit(self, items, env, out):
        """pieces written to each stream, in order"""
        for i in items:
            if i[0] == 'out':
                if any(x[0] in ('new', 'call') and "LogMessage" in str(x[1]) for x in subs(i[1])):
                    continue
                out.setdefault(self.stream(i[1]), []).extend([(p, i) for p in self.text(i[2], env)])
            elif i[0] == 'alt':
                c = self.ev(i[1], env)
                if c is None:
                    if self.writes(i):
                        a, b = {}, {}
                        self.emit(i[2], env, a)
                        self.emit(i[3], env, b)
                        for s in sorted(set(a) | set(b)):
                            out.setdefault(s, []).append((('maybe', tuple(glue(a.get(s, [])) + glue(b.get(s, []))), Where(i)), i))
                    continue
                self.emit(i[2 if c else 3], env, out)
                if len(i) > 6 and i[6 if c else 7] in ('cont', 'break', 'ret'):
                    return i[6 if c else 7]
            elif i[0] == 'loop':
                if not self.writes(i):
                    continue
                first, later, third = {}, {}, {}
                el = [x for x in subs(tuple(map(tuple_of, i[3]))) if x[0] == 'elem' and len(x) > 2 and x[2] == i[1]]
                self.emit(i[3], dict(env, pos={**env["pos"], i[1]: 0}), first)
                self.emit(i[3], dict(env, pos={**env["pos"], i[1]: 1}), later)
                self.emit(i[3], dict(env, pos={**env["pos"], i[1]: 2}), third)
                cont = self.cont(i, el, env)
                for s in sorted(set(first) | set(later)):
                    a, b = glue(first.get(s, [])), glue(later.get(s, []))
                    if glue(third.get(s, [])) != b:
                        cont = "?" + cont
                    out.setdefault(s, []).extend([(p, i) for p in rows(cont, a, b)])
        return None

    def cont(self, i, el, env):
        # a table made as large as another container is not that container
        seen = {x[1] for x in subs(tuple(map(tuple_of, i[3]))) if x[0] == 'at' and len(x) > 2 and x[2] == ('idx', i[1])} | {x[1] for x in el}
        tables = [c for c in seen if bare(c) in self.sets]
        if len(tables) == 1 and len(seen) == 1:
            return self.order(tables[0], env)
        if i[2] is not None and i[2][0] == 'size' and not tables:
            return self.order(i[2][1], env)
        if el:
            return self.order(el[0][1], env)
        if len(seen) == 1 and i[2] is not None and any(q[0] == 'size' and v == i[2] and q[1] in seen for q, v in self.w.store.items()):
            return self.order(seen.pop(), env)
        return "?"

    def order(self, c, env):
        c = bare(c)
        if c[0] == 'var' and c in self.sets:
            return self.table(c, env)
        return self.path(c, env)

    def table(self, c, env):
        """a table is in the order of the keys it was filled at"""
        s = self.sets[c]
        return "table by " + " or ".join(sorted({self.path(k, env) for k, v, l, i in s}))

    def writes(self, i):
        if i[0] == 'out':
            return not any(x[0] in ('new', 'call') and "LogMessage" in str(x[1]) for x in subs(i[1]))
        return any(self.writes(y) for x in i if isinstance(x, list) for y in x)

    def stream(self, l):
        return bare(l)


def tuple_of(i):
    return tuple(tuple(map(tuple_of, x)) if isinstance(x, list) else x for x in i if not isinstance(x, (Node, dict)) and not hasattr(x, "q"))


def glue(ps):
    out = []
    for p in ps:
        p = p[0] if isinstance(p, tuple) and len(p) == 2 and not isinstance(p[0], str) or isinstance(p, tuple) and len(p) == 2 and isinstance(p[1], tuple) else p
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def rows(cont, a, b):
    """one piece per element; text that differs before the first element stands before the loop, a separator otherwise"""
    if a == b:
        return [('each', cont, "", tuple(b))]
    pa = a[0] if a and isinstance(a[0], str) else ""
    pb = b[0] if b and isinstance(b[0], str) else ""
    ra, rb = a[1:] if pa else a, b[1:] if pb else b
    if ra == rb:
        k = 0
        while k < min(len(pa), len(pb)) and pa[len(pa) - 1 - k] == pb[len(pb) - 1 - k]:
            k += 1
        suf = pa[len(pa) - k:]
        return [pa[:len(pa) - k], ('each', cont, pb[:len(pb) - k], tuple([suf] if suf else []) + tuple(rb))]
    return [('each?', cont, tuple(a), tuple(b))]


def norm(ps):
    """joins as rows; comment lines dropped"""
    out = []
    for p in ps:
        if isinstance(p, tuple) and p[0] == 'join':
            p = ('each', p[1], p[2], (('val', p[1] + (p[3] if p[3].startswith("[]") else "?" + p[3])),))
        elif isinstance(p, tuple) and p[0] in ('each',):
            p = ('each', p[1], p[2], tuple(norm(list(p[3]))))
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def uncomment(ps, fresh=True):
    """without lines that start with '#'; -> (pieces, well formed)"""
    out, skip, start, ok = [], False, fresh, True
    for p in ps:
        if isinstance(p, str):
            keep = ""
            for ch in p:
                if start and ch == '#':
                    skip = True
                start = ch == '\n'
                if not skip:
                    keep += ch
                elif ch == '\n':
                    skip = False
            if keep:
                out.append(keep)
            continue
        if skip:
            start = False
            if any(isinstance(x, str) and "\n" in x for x in nested([p[1:] if p[0] == 'maybe' else p[2:]])):
                ok = False
            continue
        if p[0] == 'each':
            q, k = uncomment(list(p[3]), start)
            ok = ok and k
            if not q:
                continue
            p = ('each', p[1], p[2], tuple(q))
            start = isinstance(q[-1], str) and q[-1].endswith("\n")
        elif p[0] == 'maybe':
            start = False
        else:
            start = False
        out.append(p)
    return norm(out), ok and not skip


ENV = {"verbose": 0, "module": 0, "pos": {}, "placed": 4, "nodes": 5, "size": 2, "entry": "one", "fields": {"bb_index": 0, "clone_number": 0}}


def say(ps):
    def one(p):
        if isinstance(p, str):
            return repr(p)
        if p[0] == 'val':
            return "<%s>" % tail(p[1])
        if p[0] == 'each':
            return "{each %s%s: %s}" % (tail(p[1]), ", separated by %r" % p[2] if p[2] else "", " ".join(one(x) for x in p[3]))
        return str(p)
    return " ".join(one(p) for p in ps)


def tail(s):
    return s if len(s) < 60 else "..." + s[-50:]


def differ(a, b):
    """the first place where two texts differ"""
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'each' and x[1:3] == y[1:3]:
                return differ(list(x[3]), list(y[3]))
            return say([x]), say([y])
    if len(a) != len(b):
        return say(a[len(b):]) or "nothing", say(b[len(a):]) or "nothing"
    return None


def val(p):
    return ('val', p)


def expected(sp, v, env):
    sec = "profile.functions_cluster_info_by_section_name"
    infos = sec + "[].second"
    info = infos + "[]"
    cfg = "GetCfgByIndex(%s.function_index)" % info
    names = cfg + ".names_"
    name = ('each', names, sp["sep"], (val(names + "[]"),))
    f = []
    mod = [sp["mod"], val(cfg + ".module_name_")] if env["module"] else []
    if v == "1" and mod:
        f += mod + ["\n"]
    f += [sp["func"], name]
    if v == "0":
        f += mod
    f += ["\n"]
    if sp["clone"] is not None:
        paths = cfg + ".clone_paths_"
        f += [('each', paths, "", (sp["clone"], ('each', paths + "[]", " ", (val(paths + "[][].bb_id"),)), "\n"))]
    cl = info + ".clusters"
    bb = cl + "[].full_bb_ids"
    b = [val(bb + "[].bb_id")]
    if env["fields"]["clone_number"]:
        b += [".", val(bb + "[].intra_cfg_id.clone_number")]
    f += [('each', cl, "", (sp["cluster"], ('each', bb, " ", tuple(b)), "\n"))]
    cc = [sp["head"], ('each', sec, "", (('each', infos, "", tuple(norm(f))),))]
    hot = [val(names + "[]")] + ([".__part.", val("#")] if env["fields"]["bb_index"] else []) + ["\n"]
    cold = [val(names + "[]")] + ([".cold"] if env["entry"] != "none" else []) + ["\n"]
    ld = [('each', "table by %s[].layout_index" % cl, "", (('each', names, "", tuple(norm(hot))),))]
    if env["placed"] != env["nodes"]:
        ld += [('each', "table by %s.cold_cluster_layout_index" % info, "", (('each', names, "", tuple(norm(cold))),))]
    return norm(cc), norm([('each', sec, "", tuple(ld))])


def check(prog, tier):
    r = Result("the cluster file and the symbol order file say what the layout decided, line by line")
    r.explanation = ("PropellerProfileWriter::Write is evaluated symbolically into the text templates of its two streams (helpers, callbacks and tables included) for both "
                     "encodings, with and without module, verbose comments, clones, entry block in the cluster, blocks left over; each must equal the template of the "
                     "format. The layout must give each visited block to exactly one cluster of its own function, with consecutive indices.")
    fs = [F for F in prog.functions if F.q.endswith("PropellerProfileWriter::Write") and F.body]
    r.require(len(fs) == 1, "the writer of layout files")
    F = fs[0]
    encodings(r, prog, F)
    layout(r, prog)
    return r


def encodings(r, prog, F):
    gets = [G for G in prog.functions if G.q.endswith("PropellerProfileWriter::GetProfileEncoding") and G.body]
    r.require(len(gets) == 1, "the table of encodings")
    G = gets[0]
    rec = next((x for x in prog.record_q(G.d.get("ret", "").replace("const ", "").strip(" &")) or ()), None)
    fields = ["version", "version_specifier", "function_name_specifier", "function_name_separator", "module_name_specifier", "cluster_specifier", "clone_path_specifier"]
    if rec:
        fields = [f["n"] for f in rec.get("fields", [])] or fields
    enc = "profile_encoding_"
    table = {}
    w = Streams(prog)
    walkrets(w.run(G), table)
    for v, sp in SPEC.items():
        pass
    for num, t in sorted(table.items()):
        vals = t[2] if t[0] in ('op', 'new') else ()
        r.require(len(vals) == len(fields), "fields of an encoding")
        consts = {f: unwrap(x) for f, x in zip(fields, vals)}
        consts["version"] = K(num)
        v = {1: "0", 2: "1"}.get(num)
        if v is None:
            continue
        r.count(encodings=1)
        one(r, prog, F, v, consts, enc)


def unwrap(t):
    while t[0] == 'new' and t[2] and t[2][0][0] in ('str', 'new'):
        t = t[2][0]
    return t


def walkrets(items, table, num=None):
    for i in items:
        if i[0] == 'ret' and num is not None and i[1] is not None:
            table.setdefault(num, i[1])
        elif i[0] == 'alt':
            c = i[1]
            k = next((x[1] for x in subs(c) if x[0] == 'k'), None)
            walkrets(i[2], table, k)
            walkrets(i[3], table, None)


def one(r, prog, F, v, consts, enc):
    W = Writer(r, prog, F, consts, enc)
    sp = SPEC[v]
    for c, s in W.sets.items():
        n0 = W.w.room.get(c)
        if n0 is None:
            continue
        n0 = bare(n0)
        r.count(obligations=1)
        hot = W.path(s[0][0], ENV).endswith(".layout_index")
        if n0[0] == 'size' and hot or n0[0] == 'sum' and not any(x[-1:] == ('clusters',) for x in subs(n0[2])) and hot or n0[0] in ('k', 'after', 'some') or \
                n0[0] == 'size' and not W.path(n0[1], ENV).endswith("[].second"):
            r.add("room|%s" % c[1].split("#")[0], F.where(), "%s: a table with an entry for every %s has room for %s" % (F.q, "cluster" if hot else "function", show(n0)))
    for module in (0, 1):
        for verbose in (0, 1):
            for clone in (0, 1, 3):
                for bb in (0, 4):
                    for placed in (4, 5):
                        for entry in ("all", "one", "none"):
                            for size in (1, 2):
                                if verbose and (module or clone or bb or placed == 5 or entry != "one"):
                                    continue
                                if (entry != "one" or placed == 5) and (module or clone):
                                    continue
                                env = dict(ENV, module=module, verbose=verbose, placed=placed, entry=entry, size=size,
                                           fields={"bb_index": bb, "clone_number": clone})
                                case(r, W, F, v, sp, env)


def case(r, W, F, v, sp, env):
    out = {}
    W.emit(W.items, env, out)
    r.count(cases=1, obligations=2)
    cc, ld = expected(sp, v, env)
    got = {}
    where = {}
    for s, ps in out.items():
        what = role(W, s)
        got.setdefault(what, []).extend(glue([p for p, i in ps]))
        where.setdefault(what, ps[0][1])
    txt, ok = uncomment(norm(got.get("cluster", [])))
    if sp["clone"] is None:
        txt = no_clones(txt)
    for p in nested(txt + norm(got.get("order", []))):
        if isinstance(p, tuple) and p[:1] == ('maybe',):
            i = p[2].i
            r.add("when|%s" % i[5].q, i[5].where(i[4]), "%s: what is written depends on %s" % (i[5].q, show(i[1])))
            return
    if not ok:
        r.add("comment|%s" % v, F.where(), "%s: a comment of the cluster file does not end with its line" % F.q)
    for what, a, b in (("cluster", txt, cc), ("order", norm(got.get("order", [])), ld)):
        d = differ(a, b)
        if d:
            r.add("%s|v%s|%s" % (what, v, d[0][:40]), F.where(), "%s: version %s %s file: %s where %s is due" % (
                F.q, v, "cluster" if what == "cluster" else "symbol order", d[0], d[1]))
    for s in set(got) - {"cluster", "order"}:
        r.add("stream|%s" % s, F.where(), "%s: writes to %s" % (F.q, s))


def no_clones(ps):
    """paths of clones exist in version 1 only"""
    out = []
    for p in ps:
        if isinstance(p, tuple) and p[0] == 'each':
            if p[1].endswith(".clone_paths_"):
                continue
            p = ('each', p[1], p[2], tuple(no_clones(list(p[3]))))
        out.append(p)
    return norm(out)


def role(W, s):
    d = W.F.vars.get(s[1]) if s[0] == 'var' else None
    i = d.get("init") if d else None
    if isinstance(i, Node):
        for n in wire.walk1(i):
            if is_call(n):
                if short(n.f) == "cluster_out_name":
                    return "cluster"
                if short(n.f) == "symbol_order_out_name":
                    return "order"
    return show(s)


def visitors(prog):
    """callbacks that give visited blocks to clusters"""
    for G in prog.functions:
        if G.body is None or not G.q.endswith("CodeLayout::OrderAll"):
            continue
        for n in G.walk():
            if n.k == "LambdaExpr":
                for L in prog.lambdas.get(n["fk"], ()):
                    if L.body is not None and len(L.params) == 1 and any(x.k == "MemberExpr" and x.n == "full_bb_ids" for x in L.walk()) and \
                            any(is_call(x) and short(x.f) in ("push_back", "emplace_back") for x in L.walk()):
                        yield G, L


def layout(r, prog):
    for G, L in visitors(prog):
        W = Writer(r, prog, L, {}, "")
        node = ('param', L.params[0]["n"])
        for differs in (0, 1):
            for entry in (0, 1):
                for fresh in (0, 1):
                    visit(r, W, G, L, node, differs, entry, fresh)


def visit(r, W, G, L, node, differs, entry, fresh):
    def of_node(t):
        return t == node or isinstance(t, tuple) and len(t) > 2 and t[0] in ('m', 'call') and isinstance(t[1] if t[0] == 'm' else t[2], tuple) and \
            of_node(t[1] if t[0] == 'm' else t[2])

    def atom(t):
        if t[0] == 'm' and t[2] == "function_index" and of_node(t) or t[0] == 'call' and short(t[1]) == "function_index":
            return 7 + differs
        if t[0] == 'call' and short(t[1]) == "is_entry" and of_node(t):
            return entry
        if t[0] in ('m',) and t[2] == "bb_index" and of_node(t):
            return 0 if entry else 4
        if t[0] == 'var' and "function_index" in t[1]:
            return 7
        if t[0] == 'm' and t[2] == "second" and any(x[0] in ('call', 'out') and short(x[1]) in ("insert", "emplace", "try_emplace") for x in subs(t)):
            return fresh
        if t[0] in ('out', 'var') and (t[0] == 'out' or "inserted" in t[1]):
            return fresh
        return None
    env = dict(ENV, atom=atom)
    acts = []

    def go(items):
        for i in items:
            if i[0] == 'alt':
                c = W.ev(i[1], env)
                if c is None:
                    acts.append(('?', i))
                    continue
                go(i[2 if c else 3])
            elif i[0] == 'sink' and short(i[1]) in ("push_back", "emplace_back") and i[2] is not None:
                p = W.path(i[2], env)
                if p.endswith(".clusters"):
                    acts.append(('cluster', i))
                elif p.endswith("full_bb_ids"):
                    acts.append(('block', i))
    go(W.items)
    r.count(obligations=3)
    where = L.where()
    when = "a block of %s function that %s" % ("another" if differs else "the same", "is its entry" if entry else "is not its entry")
    if any(a == '?' for a, i in acts):
        i = [i for a, i in acts if a == '?'][0][1]
        if any(x[0] in ('sink',) for x in i[2] + i[3]):
            r.add("layout|cond", L.where(i[4]), "%s: what happens to a visited block depends on %s" % (G.q, show(i[1])))
        return
    new = int(bool(differs or entry))
    want = ['cluster'] * new + ['block']
    if [a for a, i in acts] != want:
        r.add("layout|%d%d" % (differs, entry), where, "%s: %s: %s" % (G.q, when, "a new cluster is due, and the block in it" if new else "the block goes to the current cluster, once"))
        return
    b = acts[-1][1]
    p = W.path(b[2], env)
    if ".clusters.back()" not in p and "back()" not in p:
        r.add("layout|last", L.where(b[4]), "%s: a block is not given to the last cluster" % G.q)
    v = bare(b[3][0]) if b[3] else None
    if v is None or "full_intra_cfg_id" not in show(v) or not any(x == node for x in subs(v)):
        r.add("layout|id", L.where(b[4]), "%s: the block given to a cluster is %s" % (G.q, show(v) if v else "unknown"))
    st = W.w.store

    def num(q):
        """how much a counter has moved"""
        e = dict(env, atom=lambda t: 100 if bare(t) == bare(q) else atom(t))
        x = st.get(q)
        return 0 if x is None else (lambda y: None if y is None else y - 100)(W.ev(x, e))
    if new:
        a = [x for x in subs(tuple(acts[0][1][3])) if x[0] == 'var']
        if len(a) == 1:
            q = a[0]
            if num(q) != 1:
                r.add("layout|index", L.where(acts[0][1][4]), "%s: clusters are not numbered one after the other" % G.q)
        for q in [q for q in st if q[0] == 'var' and "function_index" in q[1]]:
            if W.ev(st[q], env) != 7 + differs:
                r.add("layout|function", where, "%s: the function of the current cluster is not remembered" % G.q)
    for q in [q for q in st if q[0] == 'var' and "cold" in q[1]]:
        x = num(q)
        if x is not None and x != (fresh if new else 0):
            r.add("layout|cold", where, "%s: cold parts are not numbered once per function" % G.q)
