"""Structured symbolic evaluation of serialisation code.

A function is turned into the grammar of what it writes or reads: sequences of
tokens, loops with their iteration count, alternatives, and the calls and
stores ("sinks") made with the values.  Helper functions that reach a token
primitive are inlined (virtual calls through the object's class), so the
grammar does not depend on how the code is split up.

terms:  ('k',n) ('str',s) ('tok',id) ('this',id) ('var',decl,frame) ('m',base,field)
        ('elem',container,loop) ('idx',loop) ('call',name,base,args) ('op',o,args) ('any',id)
items:  ('tok',kind,term,node,F) ('eq',a,b,node,F) ('sink',name,base,args,node,F)
        ('set',loc,term,node,F) ('loop',id,count,items,filter,node,F) ('alt',cond,A,B) ('cut',depth)
"""
from frontend import Node
from ir import args, base, cval, is_call, is_cast
import ir
import itertools


def strip(n, all_casts=True):
    """as ir.strip, but constructors that convert are kept"""
    while isinstance(n, Node):
        if n.k == "CXXConstructExpr" and len(n.ch) == 1 and not n.get("copy") and not ("iterator" in (n.t or "") and "iterator" in (n.ch[0].t or "")):
            return n
        if is_cast(n) or n.k in ("CXXConstructExpr", "CXXDefaultArgExpr", "CXXRewrittenBinaryOperator", "ExprWithCleanups",
                                 "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr",
                                 "SubstNonTypeTemplateParmExpr") and len(n.ch) == 1:
            n = n.ch[0]
            continue
        m = ir.strip(n) if n.k in ("CallExpr", "InitListExpr") else n
        if m is n:
            return n
        n = m
    return n

OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       "<<": lambda a, b: a << b if 0 <= b < 64 else 0, ">>": lambda a, b: a >> b if 0 <= b < 64 else 0, "&": lambda a, b: a & b,
       "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "&&": lambda a, b: bool(a) and bool(b), "||": lambda a, b: bool(a) or bool(b)}


def short(f):
    f = f or ""
    out, d = [], 0
    for c in f:
        d += (c == '<') - (c == '>')
        if d == 0 and c != '>':
            out.append(c)
    return "".join(out).split("::")[-1]


def K(n):
    return ('k', int(n))


class Cut(Exception):
    pass


class Wire:
    def __init__(self, prog, prims, flags=None, oracle=None, depth=2, inline=None, unroll=8):
        self.prog, self.prims, self.flags = prog, prims, flags or {}
        self.oracle = oracle or (lambda t: None)
        self.depth, self.unroll = depth, unroll
        self.ids = itertools.count()
        self.reach = self._reach()
        self.extra = inline or (lambda F: False)
        self.guards = {}
        self.opaque = lambda F: False    # functions whose calls stay effects
        self.stack = []
        self.store = {}
        self.objs = {}          # object term -> dynamic class
        self.built = {}         # object term -> (ctor node, args)
        self.items = []
        self.loops = []
        self.made = {}          # lambdas seen -> frame they were made in
        self.nloops = 0
        self.updates = {}       # loop -> what one iteration makes of the locations it changes
        self.structs = False    # what calls are given of local records is spelled out; appending counts
        self.rets = False       # keep the condition under which each value is returned

    # --- which functions touch the stream -------------------------------
    def _reach(self):
        key = tuple(sorted(self.prims))
        c = self.prog.__dict__.setdefault("_wire_reach", {})
        if key in c:
            return c[key]
        callers = {}
        direct = set()
        for F in self.prog.functions:
            for n in F.walk():
                if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    if short(n.f) in self.prims and not n.cls or n.f in self.prims:
                        direct.add(F)
                    for G in self.prog.callee(n, F):
                        callers.setdefault(G, set()).add(F)
        wl = list(direct)
        while wl:
            G = wl.pop()
            for F in callers.get(G, ()):
                if F not in direct:
                    direct.add(F)
                    wl.append(F)
        c[key] = direct
        return direct

    def fresh(self):
        return ('any', next(self.ids))

    # --- locations and values -------------------------------------------
    def load(self, loc):
        v = self.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'm' and loc[1][0] == 'new':
            return self.member_of_new(loc)
        if self.rets:
            return self.before(self.store, loc)
        return loc

    def member_of_new(self, loc):
        _, (_, cls, av), f = loc
        for C in self.prog.functions:
            if C.cls == cls and C.inits and len(C.params) == len(av):
                for i in C.inits:
                    if i.get("m") == f and isinstance(i.get("init"), Node):
                        x = strip(i["init"])
                        while x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.ch:
                            x = strip(x.ch[0])
                        for p, a in zip(C.params, av):
                            if x.k == "DeclRefExpr" and x.d == p["d"]:
                                return a
                        if cval(x) is not None:
                            return K(cval(x))
        return loc

    def assign(self, loc, v, n=None, F=None):
        for k in [k for k in self.store if under(k, loc)]:
            del self.store[k]
        self.store[loc] = v
        if root(loc)[0] != 'var' or loc[0] in ('m', 'at') or has_elem(loc):
            self.items.append(('set', loc, v, n, F))

    def loc(self, n, fr):
        n = strip(n)
        if not isinstance(n, Node):
            return self.fresh()
        k = n.k
        if k == "DeclRefExpr":
            b = n.get("bind")
            if b is not None:
                return self.loc(b, fr)
            if n.get("hold"):
                return self.var(n.hold, fr)
            if n.dk in ("Var", "ParmVar", "Decomposition", "Binding"):
                g = self.prog.globals.get(n.q or n.d)
                if g is not None or n.dk == "Var" and n.d and "#" not in n.d:
                    return ('g', n.q or n.d)
                return self.var(n.d, fr)
            return ('g', n.q or n.d)
        if k == "CXXThisExpr":
            return fr["this"]
        if k == "MemberExpr":
            b = n.ch[0] if n.ch else None
            bl = fr["this"] if b is None else self.val(b, fr) if n.arrow else self.obj(b, fr)
            if n.dk not in ("Field", "IndirectField"):
                return ('g', n.q)
            if self.rets and b is not None and not n.arrow and strip(b).k == "DeclRefExpr":
                own = ('m', self.loc(strip(b), fr), n.n)     # a member of a local copy, changed since
                if own in self.store:
                    return own
            return ('m', bl, n.n)
        if k == "UnaryOperator" and n.op in ("*", "&"):
            return self.val(n.ch[0], fr) if n.op == "*" else self.loc(n.ch[0], fr)
        if k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.ch) == 2:
            return self.val(n, fr)
        if k == "ArraySubscriptExpr":
            return ('at', self.val(n.ch[0], fr), self.val(n.ch[1], fr))
        if self.rets and k == "CXXMemberCallExpr" and short(n.f) == "at" and (n.cls or "").startswith(("std::vector", "std::deque", "std::array")) and base(n) is not None:
            b = self.val(base(n), fr) if n.ch[0].arrow else self.obj(base(n), fr)
            if b[0] != 'list':
                return ('at', b, self.val(args(n)[0], fr))
        return self.val(n, fr)

    def obj(self, n, fr):
        """the object a member is selected from"""
        s = strip(n)
        if isinstance(s, Node) and (s.k in ("DeclRefExpr", "MemberExpr", "CXXThisExpr", "ArraySubscriptExpr") or s.k == "UnaryOperator"):
            l = self.loc(s, fr)
            v = self.store.get(l)
            return v if v is not None and v[0] not in ('list',) else l
        return self.val(n, fr)

    def var(self, d, fr):
        return fr["alias"].get(d) or ('var', d, fr["id"])

    def val(self, n, fr):
        if not isinstance(n, Node):
            return self.fresh()
        if n.get("cv") is not None and n.k not in ("DeclRefExpr",) and not effects(n):
            return K(n.cv)
        m = strip(n, all_casts=True)
        if m is not n:
            return self.val(m, fr)
        k = n.k
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            return K(n.cv)
        if k == "StringLiteral":
            return ('str', n.get("str"))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return K(0)
        if k == "DeclRefExpr":
            if n.get("cv") is not None:
                return K(n.cv)
            g = self.prog.globals.get(n.q or n.d)
            if g is not None and g.get("const") and isinstance(g.get("init"), Node):
                c = cval(strip(g["init"]))
                if c is not None:
                    return K(c)
            return self.load(self.loc(n, fr))
        if k in ("MemberExpr", "ArraySubscriptExpr", "CXXThisExpr"):
            return self.load(self.loc(n, fr))
        if k == "UnaryOperator":
            if n.op == "&":
                return self.loc(n.ch[0], fr)
            if n.op == "*":
                return self.load(self.loc(n, fr))
            if n.op in ("++", "--"):
                l = self.loc(n.ch[0], fr)
                old = self.load(l)
                new = self.binop("+" if n.op == "++" else "-", old, K(1))
                self.assign(l, new, n, fr["F"])
                return old if n.post else new
            v = self.val(n.ch[0], fr)
            if v[0] == 'k':
                return K({"-": -v[1], "!": not v[1], "~": ~v[1], "+": v[1]}.get(n.op, 0))
            return ('op', n.op, (v,))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == "=":
                v = self.val(n.ch[1], fr)
                self.assign(self.loc(n.ch[0], fr), v, n, fr["F"])
                return v
            if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                v = self.val(n.ch[1], fr)
                l = self.loc(n.ch[0], fr)
                v = self.binop(n.op[:-1], self.load(l), v)
                self.assign(l, v, n, fr["F"])
                return v
            if n.op == ",":
                self.val(n.ch[0], fr)
                return self.val(n.ch[1], fr)
            a = self.val(n.ch[0], fr)
            if n.op in ("&&", "||"):
                t = self.truth(a)
                if t is not None:
                    if bool(t) == (n.op == "||"):
                        return K(t)
                    return self.val(n.ch[1], fr)
            return self.binop(n.op, a, self.val(n.ch[1], fr))
        if k == "ConditionalOperator":
            cv = self.val(n.ch[0], fr)
            c = self.truth(cv)
            if c is not None:
                return self.val(n.ch[1 if c else 2], fr)
            a, b = self.val(n.ch[1], fr), self.val(n.ch[2], fr)
            return a if a == b else ('op', 'phi', (cv, a, b)) if self.rets else ('op', '?', (a, b))
        if is_call(n):
            return self.call(n, fr)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n, fr)
        if k == "InitListExpr":
            return ('op', '{}', tuple(self.val(c, fr) for c in n.ch if c is not None))
        if k == "CXXNewExpr":
            return self.val(n.ctor, fr) if isinstance(n.get("ctor"), Node) else self.fresh()
        if k == "CXXDefaultArgExpr" and n.ch:
            return self.val(n.ch[0], fr)
        if k == "LambdaExpr":
            self.made[(n["fk"], fr["id"])] = fr
            return ('lambda', n["fk"], fr["id"])
        out = [self.val(c, fr) for c in n.ch or () if isinstance(c, Node)]
        return out[0] if len(out) == 1 and is_cast(n) else ('op', k, tuple(out)) if out else self.fresh()

    def binop(self, op, a, b):
        if a[0] == 'k' and b[0] == 'k' and op in OPS:
            return K(OPS[op](a[1], b[1]))
        if op == '-' and a[0] == 'op' and a[1] == '+' and b in a[2]:
            return a[2][0] if a[2][1] == b else a[2][1]
        if op in ('*', '+', '==', '!=', '&', '|') and a[0] == 'k':
            a, b = b, a
        if op in ('+', '-') and b == K(0) or op == '*' and b == K(1):
            return a
        return ('op', op, (a, b))

    def truth(self, t):
        if t[0] == 'k':
            return bool(t[1])
        if t[0] == 'op' and t[1] == '!':
            x = self.truth(t[2][0])
            return None if x is None else not x
        if t[0] == 'op' and t[1] in ('&&', '||'):
            x = [self.truth(y) for y in t[2]]
            if t[1] == '&&':
                return False if False in x else True if x == [True, True] else None
            return True if True in x else False if x == [False, False] else None
        return self.oracle(t)

    # --- calls ---------------------------------------------------------
    def list_at(self, l):
        v = self.store.get(l)
        return v if v is not None and v[0] == 'list' else None

    def call(self, n, fr):
        name = short(n.f)
        F0 = fr["F"]
        if n.f == "absl::GetFlag" or name == "GetFlag":
            a = args(n)
            l = self.loc(a[0], fr) if a else None
            nm = l[1].split("::")[-1] if l and l[0] == 'g' else None
            if l in self.store:
                return self.store[l]
            return self.flags.get(nm, ('flag', nm))
        if name == "SetFlag":
            a = args(n)
            v = self.val(a[1], fr)
            self.items.append(('setflag', self.loc(a[0], fr), v, n, F0))
            return K(0)
        if name.startswith("Check_") and name.endswith("Impl"):
            a = [self.val(x, fr) for x in args(n)[:2]]
            self.items.append(('check', name[6:8], a[0], a[1], n, F0))
            return K(0)
        if n.k == "CXXOperatorCallExpr":
            ch = n.ch[1:]
            if n.op == "=" and len(ch) == 2:
                v = self.val(ch[1], fr)
                l = self.loc(ch[0], fr)
                self.assign(l, v, n, F0)
                return l
            if n.op == "[]":
                b = self.obj(ch[0], fr)
                i = self.val(ch[1], fr)
                li = self.list_at(b) or (b if b[0] == 'list' else None)
                if li and i[0] == 'k' and 0 <= i[1] < len(li[1]) and not any(x[0] == 'all' for x in li[1]):
                    return li[1][i[1]]
                return self.load(('at', b, i))
            if n.op in ("*", "->") and len(ch) == 1:
                v = self.val(ch[0], fr)
                if v[0] == 'iter':
                    return self.load(v[1])
                return self.load(('*', v)) if v[0] == 'call' else v
            if n.op == "()" and not n.cls.startswith("std::"):
                ob = self.val(ch[0], fr)
                tg = [f for f in self.prog.callee(n, F0) if f.body is not None]
                if ob[0] == 'lambda' and ob[1:] in self.made and len(tg) == 1:
                    return self.enter(tg[0], n, None, ch[1:], fr, outer=self.made[ob[1:]])
            elif n.op in ("++", "--") and ch:
                l = self.loc(ch[0], fr)
                old = self.load(l)
                self.assign(l, ('op', n.op, (old,)), n, F0)
                return old
            elif not self.targets(n, fr)[0]:
                v = [self.obj(c, fr) for c in ch]
                if n.op in OPS and len(v) == 2:
                    return self.binop(n.op, v[0], v[1])
                return ('op', n.op, tuple(v))
        if n.f in ("std::begin", "std::end", "std::size") and len(args(n)) == 1:
            return ('call', name, self.obj(args(n)[0], fr), ())
        if name == "get" and (n.fk or "").startswith(("std::get<0", "std::get<1")) and len(args(n)) == 1:
            return self.load(('m', self.obj(args(n)[0], fr), ("first", "second")[int(n.fk[9])]))
        if n.f == "std::for_each" and len(args(n)) == 3 or (n.f or "").endswith("c_for_each") and len(args(n)) == 2:
            av = [self.val(a, fr) for a in args(n)]
            c = av[0][2] if n.f == "std::for_each" and av[0][0] == 'call' else self.obj(args(n)[0], fr) if len(av) == 2 else None
            lam = [g for g in self.prog.lambdas.get(av[-1][1], ())] if av[-1][0] == 'lambda' and av[-1][1:] in self.made else []
            lam = [g for g in lam if g.body is not None and len(g.params) == 1]
            if c is not None and lam:
                uid, keep, self.items = next(self.ids), self.items, []
                outer = self.made[av[-1][1:]]
                for q in [q for x in lam[0].walk() for q in self.written(x, outer)]:
                    self.store[q] = ('after', q, uid)
                el = ('elem', c, uid)
                sub = dict(outer, alias=dict(outer["alias"]))
                sub["alias"][lam[0].params[0]["d"]] = el
                self.enter(lam[0], n, None, [], fr, outer=sub, pvals=None)
                it, self.items = self.items, keep
                self.items.append(('loop', uid, ('size', c), it, {}, n, F0))
                return K(0)
        if n.f in ("std::move", "std::forward", "std::as_const") and len(args(n)) == 1:
            return self.val(args(n)[0], fr)
        if short(n.f) in self.prims and not n.cls or n.f in self.prims:
            av = [self.val(a, fr) for a in args(n)]
            kind, d = self.prims[n.f if n.f in self.prims else short(n.f)]
            if d == 'r':
                t = ('tok', next(self.ids))
                self.items.append(('tok', kind, t, n, F0))
                return t
            self.items.append(('tok', kind, av[0] if av else K(0), n, F0))
            return K(0)
        tg, dyn = self.targets(n, fr)
        bo = base(n)
        bl = None
        if n.k == "CXXMemberCallExpr":
            m = n.ch[0]
            bl = fr["this"] if bo is None else (self.val(bo, fr) if m.arrow else self.obj(bo, fr))
            # local containers of known content
            lo = self.loc(bo, fr) if bo is not None and strip(bo).k in ("DeclRefExpr", "MemberExpr") else None
            li = self.list_at(lo) if lo is not None else bl if bl is not None and bl[0] == 'list' else None
            if self.rets and li is None and lo is not None and lo[0] == 'var' and name in ("push_back", "emplace_back", "insert") and (n.cls or "").startswith("std::vector") and \
                    (self.store.get(lo) or ('',))[0] in ('param', 'm', 'elem', 'var', 'call'):
                li = ('list', (('all', self.store[lo]),))
            if li is not None:
                r = self.on_list(n, name, lo, li, fr)
                if r is not None:
                    return r
        if len(tg) == 1 and not self.opaque(tg[0]) and (tg[0] in self.reach or self.extra(tg[0]) or self.getter(tg[0]) or dyn is not None):
            return self.enter(tg[0], n, bl, args(n), fr)
        if self.rets and name == "at" and bl is not None and len(args(n)) == 1 and (n.cls or "").startswith(("std::vector", "std::deque", "std::array")):
            t = ('at', bl, self.val(args(n)[0], fr))
            return self.store.get(t) or t
        if name == "resize" and bl is not None and not tg and args(n):
            self.store[('size', bl)] = self.val(args(n)[0], fr)
            return K(0)
        if name in ("push_back", "emplace_back", "insert", "clear", "pop_back", "erase", "emplace", "swap", "assign") and bl is not None:
            if self.structs and name in ("push_back", "emplace_back"):
                self.store[('size', bl)] = ('op', '+', (self.load(('size', bl)), K(1)))
            else:
                self.store.pop(('size', bl), None)
        pm = n.get("pm") or ()
        av = tuple(self.obj(a, fr) if strip(a).get("lv") else self.val(a, fr) for a in args(n) if isinstance(a, Node))
        av = tuple(self.list_at(a) or a if i >= len(pm) or pm[i] in ("cr", "v") else a for i, a in enumerate(av))
        if self.structs:
            av = tuple(self.record(a) for a in av)
        t = ('call', n.f if not (n.cls or "").startswith(("std::", "absl::")) else name, bl, av)
        if name in ("size", "length") and not av and bl is not None and not tg:
            return self.load(('size', bl))
        if n.f and not n.get("mconst") and not ((n.cls or "").startswith(("std::", "absl::", "google::")) and name in PURE) and (tg or bl is not None or any(m in ("r", "p") for m in n.get("pm") or ())):
            self.items.append(('sink', n.f, bl, av, n, F0))
            for a, m in zip(args(n), n.get("pm") or ()):
                if m in ("r", "p"):
                    s = strip(a)
                    l = self.loc(a, fr)
                    if root(l)[0] == 'var' and (m == "r" or s.k == "UnaryOperator"):
                        self.store[l] = ('out', n.f, av, next(self.ids))
        return t

    def record(self, a):
        """the value of a local record, field by field"""
        if a[0] != 'var':
            return a
        if self.store.get(a) not in (None, a):
            return self.record(self.store[a])
        f = sorted(((k[2], self.record(v)) for k, v in self.store.items() if k[0] == 'm' and k[1] == a), key=str)
        return ('rec', tuple(f)) if f else a

    def getter(self, F):
        b = F.body
        if b is None or b.k != "CompoundStmt" or len(b.ch or ()) != 1 or b.ch[0].k != "ReturnStmt":
            return False
        return not any(is_call(x) and x.k != "CXXOperatorCallExpr" and x.f and self.prog.callee(x, F) for x in walk1(b))

    def on_list(self, n, name, lo, li, fr):
        av = args(n)
        if name in ("push_back", "emplace_back") and lo is not None:
            vs = [self.val(a, fr) for a in av]
            self.store[lo] = ('list', li[1] + ((vs[0] if len(vs) == 1 else ('op', '{}', tuple(vs))),))
            return K(0)
        if name == "insert" and lo is not None and len(av) >= 2:
            vs = [self.val(a, fr) for a in av]
            if len(vs) == 3 and all(v[0] == 'call' for v in vs) and vs[1][1] in ("begin", "cbegin") and vs[2][1] in ("end", "cend"):
                src = vs[1][2]
                new = src[1] if src is not None and src[0] == 'list' else (('all', src),)
            elif len(vs) == 2:
                new = (vs[1],)
            else:
                return None
            where = vs[0]
            if where[0] == 'call' and where[1] in ("end", "cend"):
                self.store[lo] = ('list', li[1] + new)
            elif where[0] == 'call' and where[1] in ("begin", "cbegin"):
                self.store[lo] = ('list', new + li[1])
            else:
                return None
            return K(0)
        known = not any(x[0] == 'all' for x in li[1])
        if name == "size" and known:
            return K(len(li[1]))
        if name == "empty" and (known or len(li[1]) > 1):
            return K(not li[1])
        if name in ("back", "front") and li[1]:
            return li[1][-1 if name == "back" else 0]
        if name in ("begin", "end", "cbegin", "cend"):
            return ('call', name, li, ())
        if name == "at" and av:
            v = self.val(av[0], fr)
            if v[0] == 'k' and known and 0 <= v[1] < len(li[1]):
                return li[1][v[1]]
        if name in ("reserve", "shrink_to_fit"):
            return K(0)
        if name == "clear" and lo is not None:
            self.store[lo] = ('list', ())
            return K(0)
        return None

    def targets(self, n, fr):
        c = self.prog.callee(n, fr["F"])
        if not n.get("virt") or len(c) <= 1:
            return [f for f in c if f.body is not None], None
        bo = base(n)
        o = fr["this"] if bo is None else self.val(bo, fr) if n.ch[0].arrow else self.obj(bo, fr)
        dyn = self.objs.get(o)
        if dyn is None:
            return [f for f in c if f.body is not None], None
        chain = self.chain(dyn)
        for cl in chain:
            for f in c:
                if f.cls == cl and f.body is not None:
                    return [f], dyn
        return [f for f in c if f.body is not None], dyn

    def chain(self, cls):
        out, wl = [], [cls]
        while wl:
            c = wl.pop(0)
            if c in out:
                continue
            out.append(c)
            for r in self.prog.record_q(c):
                for b in r.get("bases") or ():
                    b = b.get("q") if isinstance(b, dict) else b
                    wl.append(b)
        return out

    def enter(self, F, n, bl, an, fr, pvals=None, outer=None):
        if sum(1 for g, _ in self.stack if g is F) >= self.depth:
            self.items.append(('cut', F))
            return self.fresh()
        nf = {"id": next(self.ids), "F": F, "this": bl, "alias": {}, "ret": []}
        if outer is not None:       # a lambda shares the variables and the object it was made with
            nf.update(id=outer["id"], this=outer["this"], alias=dict(outer["alias"]))
        for i, p in enumerate(F.params):
            if pvals is not None:
                v = pvals[i]
                self.store[('var', p["d"], nf["id"])] = v
                continue
            if i >= len(an):
                continue
            nf["alias"].pop(p["d"], None)
            t = p.get("t") or ""
            a = an[i]
            if t.endswith("&") or t.endswith("&&"):
                s = strip(a)
                if s.k in ("DeclRefExpr", "MemberExpr", "UnaryOperator", "ArraySubscriptExpr"):
                    nf["alias"][p["d"]] = self.loc(s, fr)
                    continue
            self.store[('var', p["d"], nf["id"])] = self.val(a, fr)
        self.stack.append((F, n))
        if self.rets:
            keep, self.items = self.items, []
            nf["loops"] = self.nloops
        e = self.body(F.body, nf)
        self.stack.pop()
        rs = set(nf["ret"])
        if self.rets:
            self.exits(nf, e)
            v = returned(self.items)
            self.items = keep + drop_rets(self.items)
            if len(rs) > 1 and v is not None:
                return v
        return rs.pop() if len(rs) == 1 else ('op', 'ret', tuple(sorted(rs, key=str))) if rs else K(0)

    def construct(self, n, fr, at=None):
        cls = n.get("cls") or ""
        if n.get("copy") and len(n.ch) == 1:
            return self.val(n.ch[0], fr)
        if cls.startswith(("std::vector", "std::deque", "std::list")) or short(cls) in ("vector", "deque"):
            if not [c for c in n.ch or () if isinstance(c, Node) and c.k != "CXXDefaultArgExpr"]:
                return ('list', ())
            il = [c for c in n.ch if c.k != "CXXDefaultArgExpr"]
            if self.rets and len(il) == 1 and any(x.k == "CXXStdInitializerListExpr" for x in walk1(il[0])):
                l = next((x for x in walk1(il[0]) if x.k == "InitListExpr"), None)
                if l is not None:
                    return ('list', tuple(self.val(c, fr) for c in l.ch))
            av = [self.val(c, fr) for c in n.ch if c.k != "CXXDefaultArgExpr"]
            if len(av) == 2 and all(v[0] == 'call' for v in av) and av[0][1] == "begin" and av[1][1] == "end":
                return av[0][2] if av[0][2][0] == 'list' else ('list', (('all', av[0][2]),))
        if cls.startswith("std::") and "string" in cls and len([c for c in n.ch or () if c.k != "CXXDefaultArgExpr"]) == 1:
            return self.val(n.ch[0], fr)
        C = [f for f in self.prog.callee(n, fr["F"]) if f.body is not None or f.inits]
        if len(C) == 1 and at is not None and (C[0] in self.reach or self.rets and self.extra(C[0])):
            self.objs[at] = cls
            self.enter_ctor(C[0], n, at, fr)
            return at
        if C and C[0].cls and at is not None and self.poly(cls):
            self.objs[at] = cls
            self.enter_inits(C[0], n, at, fr)
            self.built[at] = (n, C[0])
            self.items.append(('built', at, C[0], n, fr["F"]))
            return at
        if at is not None and not [c for c in n.ch or () if isinstance(c, Node) and c.k != "CXXDefaultArgExpr"]:
            return at
        return ('new', cls, tuple(self.obj(c, fr) if strip(c).get("lv") else self.val(c, fr) for c in n.ch or () if isinstance(c, Node)))

    def poly(self, cls):
        return any(f.get("virt") for c in self.chain(cls) for f in (g.d for g in self.prog.functions if g.cls == c))

    def enter_inits(self, C, n, at, fr):
        """bind constructor parameters to members they initialise directly"""
        av = [c for c in n.ch or ()]
        pv = {}
        for p, a in zip(C.params, av):
            s = strip(a)
            pv[p["d"]] = self.loc(s, fr) if (p.get("t") or "").endswith("&") and s.k in ("DeclRefExpr", "MemberExpr", "UnaryOperator") else self.val(a, fr)
        for i in C.inits:
            m, x = i.get("m"), i.get("init")
            if m and isinstance(x, Node):
                s = strip(x)
                if s.k == "DeclRefExpr" and s.d in pv:
                    self.store[('m', at, m)] = pv[s.d]
                elif cval(x) is not None:
                    self.store[('m', at, m)] = K(cval(x))
                elif self.rets:
                    nf = {"id": next(self.ids), "F": C, "this": at, "alias": {}, "ret": []}
                    for d, v in pv.items():
                        self.store[('var', d, nf["id"])] = v
                    self.store[('m', at, m)] = self.val(x, nf)
        return pv

    def enter_ctor(self, C, n, at, fr):
        self.enter_inits(C, n, at, fr)
        if C.body is not None:
            self.enter(C, n, at, [c for c in n.ch or ()], fr)

    # --- statements ----------------------------------------------------
    def body(self, b, fr):
        """evaluates a statement; returns None | 'ret' | 'cont' | 'break' | 'dead'"""
        return self.seq([b], fr)

    def seq(self, ss, fr):
        for i, s in enumerate(ss):
            if not isinstance(s, Node):
                continue
            if s.k == "CompoundStmt":
                e = self.seq(list(s.ch or ()), fr)
            elif s.k == "IfStmt":
                e, done = self.if_(s, ss[i + 1:], fr)
                if done:
                    return e
            else:
                e = self.stmt(s, fr)
            if e:
                return e
        return None

    def decl(self, v, fr):
        l = ('var', v.d, fr["id"])
        x = v.get("init")
        if self.rets:
            for q in [q for q in self.store if q != l and under(q, l)]:
                del self.store[q]
        if v.get("bindings"):
            if isinstance(x, Node):
                if v.ref:
                    fr["alias"][v.d] = self.loc(x, fr)
                else:
                    self.store[l] = self.val(x, fr)
            for b in v.bindings:
                if isinstance(b.get("init"), Node) and b.get("hold"):
                    fr["alias"][b["hold"]] = self.loc(b["init"], fr)
            return
        if not isinstance(x, Node):
            self.store.pop(l, None)
            return
        if v.ref:
            s = strip(x)
            a = self.loc(s, fr)
            st = self.store.get(a)
            fr["alias"][v.d] = st if st is not None and st[0] in ('elem', 'm', 'at') else a
            return
        s = strip(x)
        if s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not s.get("copy"):
            r = self.construct(s, fr, l)
            if r != l:
                self.store[l] = r
            return
        self.store[l] = self.val(x, fr)

    def stmt(self, s, fr):
        k = s.k
        if k == "DeclStmt":
            for v in s.ch:
                self.decl(v, fr)
            return None
        if k == "ReturnStmt":
            if s.ch and s.ch[0] is not None:
                fr["ret"].append(self.val(s.ch[0], fr))
                if self.rets:
                    self.items.append(('ret', fr["ret"][-1], s, fr["F"]))
            elif self.rets:
                self.items.append(('ret', None, s, fr["F"]))
            if self.rets and not self.depth_in_loop(fr):
                fr.setdefault("exits", []).append((tuple(fr.get("conds", ())), dict(self.store)))
            return 'ret'
        if k == "ContinueStmt":
            return 'cont'
        if k == "BreakStmt":
            return 'break'
        if k == "NullStmt":
            return None
        if k in ("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt"):
            return self.loop(s, fr)
        if k == "SwitchStmt":
            if self.rets:
                return self.switch(s, fr)
            self.val(s.ch[0], fr)
            self.items.append(('opaque', s, fr["F"]))
            return None
        if k in ("LabelStmt", "CaseStmt", "DefaultStmt", "AttributedStmt"):
            return self.seq([c for c in s.ch or ()][-1:], fr)
        if isinstance(s, Node):
            self.val(s, fr)
            if is_call(s) and s.noret:
                return 'dead'
            if any(is_call(x) and x.noret or x.k in ("CXXTemporaryObjectExpr", "CXXConstructExpr") and "Fatal" in (x.cls or "") for x in walk1(s)):
                if strip(s).k not in ("ConditionalOperator",):
                    return 'dead' if strip(s).k not in ("BinaryOperator",) else None
        return None

    def switch(self, s, fr):
        """a switch as a chain of alternatives, fall-through included"""
        v = self.val(s.ch[0], fr)
        body = next((c for c in reversed(s.ch) if isinstance(c, Node) and c.k == "CompoundStmt"), None)
        if body is None:
            return None
        groups, flat = [], []       # (labels, is default, index into flat)
        for c in body.ch or ():
            labels, dflt = [], False
            while isinstance(c, Node) and c.k in ("CaseStmt", "DefaultStmt"):
                if c.k == "DefaultStmt":
                    dflt = True
                else:
                    labels.append(K(c["cv"]) if c.get("cv") is not None else self.fresh())
                c = c.ch[-1] if c.ch else None
            if labels or dflt:
                groups.append((labels, dflt, len(flat)))
            if isinstance(c, Node):
                flat.append(c)
        other = next((at for _, d, at in groups if d), None)

        def arm(at):
            e = self.seq(flat[at:], fr)
            return None if e == 'break' else e

        def rest(i):
            if i == len(groups):
                return arm(other) if other is not None else None
            labels, dflt, at = groups[i]
            if dflt:
                return rest(i + 1)
            c = None
            for l in labels:
                x = self.binop('==', v, l)
                c = x if c is None else ('op', '||', (c, x))
            t = self.truth(c)
            if t is not None:
                return arm(at) if t else rest(i + 1)
            cs = fr.setdefault("conds", [])
            cs.append(c)
            A = self.fork(lambda: arm(at))
            cs[-1] = ('op', '!', (c,))
            B = self.fork(lambda: rest(i + 1))
            cs.pop()
            self.items.append(('alt', c, A[0], B[0], s, fr["F"], A[1], B[1]))
            pick = [g for g in (A, B) if g[1] not in ('ret', 'dead')] or [A, B]
            self.store = dict(pick[0][2])
            if len(pick) == 2:
                for q in set(A[2]) | set(B[2]):
                    a, b = self.before(A[2], q), self.before(B[2], q)
                    self.store[q] = a if a == b else ('op', 'phi', (c, a, b))
            return A[1] if A[1] == B[1] else None if None in (A[1], B[1]) else 'cont' if 'cont' in (A[1], B[1]) else 'ret'
        return rest(0)

    def depth_in_loop(self, fr):
        return self.nloops > fr.get("loops", 0)

    def exits(self, fr, e):
        """the state in which a call comes back: one of those its return statements left"""
        ex = fr.get("exits") or []
        if not ex or len(ex) == 1 and e == 'ret':
            if ex:
                self.store = ex[0][1]
            return
        cur = self.store
        if e == 'ret':
            cur, ex = ex[-1][1], ex[:-1]
        for cs, st in reversed(ex):
            if st == cur:
                continue
            c = None
            for x in cs:
                c = x if c is None else ('op', '&&', (c, x))
            if c is None:
                cur = st
                continue
            out = {}
            for q in set(st) | set(cur):
                a, b = self.before(st, q), self.before(cur, q)
                out[q] = a if a == b else ('op', 'phi', (c, a, b))
            cur = out
        self.store = cur

    def before(self, store, k):
        """what a location holds, also where it was not written"""
        v = store.get(k)
        if v is None and self.rets and k[0] == 'm' and k[1][0] == 'var' and store.get(k[1]) is not None and store[k[1]][0] != 'list':
            return ('m', store[k[1]], k[2])
        return k if v is None else v

    def fork(self, f):
        """runs f on copies of the state; returns (items, exit, store)"""
        keep, st = self.items, dict(self.store)
        self.items = []
        e = f()
        it, after = self.items, self.store
        self.items, self.store = keep, st
        return it, e, after

    def if_(self, s, rest, fr):
        """returns (exit, whether the rest of the block was consumed)"""
        if isinstance(s.get("init"), Node):
            self.stmt(s.init, fr)
        if isinstance(s.get("cvar"), Node):
            self.decl(s.cvar, fr)
        then, els = s.ch[1], s.ch[2] if len(s.ch) > 2 else None
        c = self.val(s.ch[0], fr)
        t = self.truth(c)
        if t is not None:
            b = then if t else els
            return (self.seq([b], fr), False) if isinstance(b, Node) else (None, False)
        cs = fr.setdefault("conds", [])
        cs.append(c)
        A = self.fork(lambda: self.seq([then], fr))
        cs[-1] = ('op', '!', (c,))
        B = self.fork(lambda: self.seq([els], fr) if isinstance(els, Node) else None)
        cs.pop()
        if A[1] is None and B[1] is None:
            if A[0] or B[0]:
                self.items.append(('alt', c, A[0], B[0], s, fr["F"]))
            for k in set(A[2]) | set(B[2]):
                a, b = self.before(A[2], k), self.before(B[2], k)
                if a == b:
                    self.store[k] = a
                else:
                    self.store[k] = ('op', 'phi', (c, a, b))
            return None, False
        # one side leaves the block: the rest belongs to the other
        if 'dead' in (A[1], B[1]):
            g = B if A[1] == 'dead' else A
            self.items += g[0]
            self.store = g[2]
            return g[1], bool(g[1])
        out = []
        for g in (A, B):
            if g[1] is None:
                self.store, keep = dict(g[2]), self.items
                self.items = []
                cs.append(c if g is A else ('op', '!', (c,)))
                e = self.seq(rest, fr)
                cs.pop()
                out.append((g[0] + self.items, e, self.store))
                self.items = keep
            else:
                out.append(g)
        self.items.append(('alt', c, out[0][0], out[1][0], s, fr["F"], out[0][1], out[1][1]))
        # sides that leave the function do not reach what follows
        pick = [g for g in out if g[1] != 'ret'] or out
        self.store = dict(pick[0][2])
        if len(pick) == 2:
            for q in set(pick[0][2]) | set(pick[1][2]):
                a, b = self.before(pick[0][2], q), self.before(pick[1][2], q)
                self.store[q] = a if a == b else ('op', 'phi', (c, a, b))
        ex = {g[1] for g in out}
        return (ex.pop() if len(ex) == 1 else None if None in ex else 'cont' if 'cont' in ex else 'ret'), True

    def loop(self, s, fr):
        k, uid = s.k, next(self.ids)
        F0 = fr["F"]
        count, kill = None, []
        if k == "CXXForRangeStmt":
            cont = self.obj(s.range, fr)
            v = s.var
            el = ('elem', cont, uid)
            fr["alias"][v.d] = el
            for b in v.get("bindings") or ():
                if b.get("hold"):
                    i = b.get("init")
                    l = self.loc(i, fr) if isinstance(i, Node) else self.fresh()
                    fr["alias"][b["hold"]] = l
            if self.list_at(cont):
                cont = self.list_at(cont)
            if cont[0] == 'list' and len(cont[1]) <= self.unroll and not any(x[0] == 'all' for x in cont[1]):
                for x in cont[1]:
                    fr["alias"][v.d] = x
                    for b in v.get("bindings") or ():
                        if b.get("hold") and isinstance(b.get("init"), Node):
                            fr["alias"][b["hold"]] = self.loc(b["init"], fr)
                    e = self.seq([s.ch[-1]], fr)
                    if e in ('ret', 'dead'):
                        return e
                    if e == 'break':
                        break
                return None
            if cont[0] == 'list':
                count = K(len(cont[1])) if not any(x[0] == 'all' for x in cont[1]) else None
            else:
                count = self.load(('size', cont))
            bod, inc = s.ch[-1], None
        elif k == "ForStmt":
            ini, cond, inc, bod = (list(s.ch) + [None] * 4)[:4]
            if isinstance(ini, Node):
                self.seq([ini], fr)
            if isinstance(cond, Node):
                count = self.counted(cond, inc, bod, fr, uid)
        else:
            cond, bod = (s.ch[0], s.ch[1]) if k == "WhileStmt" else (s.ch[-1], s.ch[0])
            inc = None
            if k == "WhileStmt":
                if isinstance(s.get("cvar"), Node):
                    self.decl(s.cvar, fr)
                    if s.mac or any(is_call(x) and short(x.f).startswith("Check_") for x in walk1(s.cvar)):
                        return None
                count = self.counted(cond, None, bod, fr, uid)
        orig = dict(self.store)
        # variables the loop changes hold unknown values inside (the counter excepted)
        for x in walk1(bod):
            for l in self.written(x, fr):
                if not (self.store.get(l) and (self.store[l] == ('idx', uid) or self.store[l][0] == 'iter')):
                    for q in [q for q in self.store if q == l or under(q, l)]:
                        if self.store[q][0] == 'list':
                            continue
                        self.store[q] = ('lv', l, uid)
        keep = self.items
        before = dict(self.store)
        guard = None
        for again in (False, True):
            self.items = []
            if self.rets and count is None and k in ("ForStmt", "WhileStmt") and isinstance(cond, Node):
                st = dict(self.store)
                guard = self.guards[uid] = self.val(cond, fr)
                self.items, self.store = [], st
            self.nloops += 1
            e = self.seq([bod], fr)
            self.nloops -= 1
            if e == 'break' and self.rets:
                self.items.append(('alt', K(1), [], [], s, F0, 'break', None))
            if isinstance(inc, Node):
                mark = len(self.items)
                self.val(inc, fr)
                self.items = self.items[:mark] + [i for i in self.items[mark:] if i[0] != 'set']
            it, after = self.items, self.store
            if again:
                break
            moved = [q for q, a in before.items() if after.get(q) != a and a != ('idx', uid) and a[0] not in ('lv', 'iter')]
            moved += [q for q in after if q not in before and q[0] in ('m', 'at') and root(q)[0] != 'elem']
            if not moved:
                break
            self.store = dict(before)
            for q in moved:
                self.store[q] = ('list', (('all', ('lv', q, uid)),)) if before.get(q, q)[0] == 'list' else ('lv', q, uid)
        self.updates[uid] = {q: v for q, v in after.items() if v != ('lv', q, uid) and before.get(q) != v}
        if guard is not None:
            count = self.stepped(guard, after, orig, uid)
        self.items = keep
        self.store = {}
        for q in set(before) | set(after):
            a, b = before.get(q), after.get(q)
            if a is None and (q[0] not in ('m', 'at') or root(q)[0] == 'elem'):
                continue
            if a is not None and a == b:
                self.store[q] = a
            elif self.rets and a is not None and a[0] == 'list' and k == "CXXForRangeStmt" and b is not None and \
                    b == ('list', (('all', ('lv', q, uid)), el)) and not leaves(it):
                self.store[q] = ('list', orig.get(q, a)[1] + (('all', cont),))
            elif a is not None and a[0] == 'list':
                self.store[q] = ('list', (('all', ('after', q, uid)),))
            else:
                if self.rets and b is not None:
                    f = self.chosen(b, ('lv', q, uid), it, uid, orig.get(q, a))
                    if f is not None:
                        self.store[q] = f
                        continue
                n = self.tally(b, ('lv', q, uid), count, uid) if b is not None else None
                self.store[q] = self.binop('+', orig.get(q, a) or q, n) if n is not None else ('after', q, uid)
        if any(i[0] in ('brk',) for i in it):
            count = None
        if it:
            self.items.append(('loop', uid, count, it, {q: orig[q] for q in orig if after.get(q) != orig[q]}, s, F0))
        return None

    def chosen(self, v, lv, items, uid, old):
        """the value of a variable that is set when the loop is left early, and only then"""
        if v[0] != 'op' or v[1] != 'phi' or old is None:
            return None
        c, a, b = v[2]
        side = 0 if b == lv else 1 if a == lv else None
        if side is None or lv in terms((a, b)[side]):
            return None
        for i in items:
            if i[0] == 'alt' and i[1] == c and len(i) > 6 and i[6 + side] == 'break':
                return ('first', uid, ('op', 'phi', (c, a, ('none',)) if side == 0 else (c, ('none',), b)), old)
        return None

    def tally(self, v, lv, count, uid):
        """how much a variable grew over the whole loop, if by one per (selected) iteration"""
        if count is None or v == lv:
            return None
        if v == ('op', '+', (lv, K(1))):
            return anon(count, uid)
        if v[0] == 'op' and v[1] == 'phi':
            c, a, b = v[2]
            if a == lv and b == ('op', '+', (lv, K(1))):
                return ('some', anon(count, uid), anon(('op', '!', (c,)), uid))
            if b == lv and a == ('op', '+', (lv, K(1))):
                return ('some', anon(count, uid), anon(c, uid))
        if v[0] == 'op' and v[1] == '+' and lv in v[2]:
            d = v[2][1] if v[2][0] == lv else v[2][0]
            if lv not in terms(d):
                return ('sum', anon(count, uid), anon(d, uid))
        return None

    def written(self, x, fr):
        if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">="):
            t = strip(x.ch[0])
        elif x.k == "UnaryOperator" and x.op in ("++", "--"):
            t = strip(x.ch[0])
        elif x.k == "CXXOperatorCallExpr" and x.op in ("=", "+=", "++", "--"):
            t = strip(x.ch[1])
        else:
            return []
        if t.k in ("DeclRefExpr",) and t.dk in ("Var", "ParmVar"):
            return [self.loc(t, fr)]
        if t.k == "MemberExpr" and (not t.ch or strip(t.ch[0]).k in ("CXXThisExpr", "DeclRefExpr")):
            return [self.loc(t, fr)]
        return []

    def stepped(self, g, after, orig, uid):
        """iterations of a loop whose guard compares a location that grows by one each time"""
        neg = {'==': '!=', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
        flip = {'<': '>', '>': '<', '>=': '<=', '<=': '>='}
        while g[0] == 'op' and g[1] == '!' and g[2][0][0] == 'op':
            x = g[2][0]
            if x[1] == '!':
                g = x[2][0]
            elif x[1] in neg:
                g = ('op', neg[x[1]], x[2])
            else:
                return None
        if g[0] != 'op' or len(g[2]) != 2:
            return None
        for a, b, o in ((g[2][0], g[2][1], g[1]), (g[2][1], g[2][0], flip.get(g[1], g[1]))):
            if a[0] == 'lv' and a[2] == uid and o in ('<', '!=', '<=') and after.get(a[1]) == ('op', '+', (a, K(1))):
                if any(x[0] == 'lv' and x[2] == uid and after.get(x[1]) != x for x in terms(b) if isinstance(x, tuple) and x):
                    continue
                n = self.binop('-', b, orig.get(a[1], a[1]))
                return self.binop('+', n, K(1)) if o == '<=' else n
        return None

    def counted(self, cond, inc, bod, fr, uid):
        """number of iterations of a counting loop, or None"""
        c = strip(cond)
        if c.k == "CXXRewrittenBinaryOperator":
            c = strip(c.ch[0])
        neg = False
        while isinstance(c, Node) and c.k == "UnaryOperator" and c.op == "!":
            c, neg = strip(c.ch[0]), not neg

        def steps(v, d):
            """changes of v by d: in inc, or exactly once in the body"""
            out = []
            for part, top in ((inc, True), (bod, False)):
                if not isinstance(part, Node):
                    continue
                for x in walk1(part):
                    for l in self.written(x, fr):
                        if l == v:
                            ok = x.k == "UnaryOperator" and x.op == d or x.k == "CXXOperatorCallExpr" and x.op == d or \
                                x.k == "CompoundAssignOperator" and x.op == d[0] + "=" and cval(x.ch[1]) == 1
                            out.append(ok and (top or any(strip(y) is x or y is x for y in (bod.ch if bod.k == "CompoundStmt" else [bod]))))
            return out == [True]
        # while (n--)
        if c.k == "UnaryOperator" and c.op == "--" and c.post:
            v = self.loc(c.ch[0], fr)
            return self.load(v)
        if c.k == "BinaryOperator" and c.op in (">", "!=") and strip(c.ch[0]).k == "UnaryOperator" and strip(c.ch[0]).op == "--" and strip(c.ch[0]).post and cval(c.ch[1]) == 0:
            return self.load(self.loc(strip(c.ch[0]).ch[0], fr))
        if c.k in ("BinaryOperator", "CXXOperatorCallExpr"):
            l, r = (c.ch[0], c.ch[1]) if c.k == "BinaryOperator" else (c.ch[1], c.ch[2])
            op = c.op
            if neg:
                op = {"==": "!=", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(op)
            for a, b, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                s = strip(a)
                if s.k not in ("DeclRefExpr",):
                    continue
                v = self.loc(s, fr)
                start = self.load(v)
                if start[0] == 'call' and start[1] in ("begin", "cbegin") and o == "!=" and steps(v, "++"):
                    e = self.val(b, fr)
                    if e[0] == 'call' and e[1] in ("end", "cend") and e[2] == start[2]:
                        self.store[v] = ('iter', ('elem', start[2], uid))
                        return ('size', start[2])
                if o in ("<", "!=", "<=") and steps(v, "++"):
                    bound = self.val(b, fr)
                    self.store[v] = ('idx', uid)
                    n = self.binop("-", bound, start)
                    return self.binop("+", n, K(1)) if o == "<=" else n
                if o in (">", "!=", ">=") and steps(v, "--"):
                    bound = self.val(b, fr)
                    self.store[v] = ('idx', uid)
                    n = self.binop("-", start, bound)
                    return self.binop("+", n, K(1)) if o == ">=" else n
        return None

    # --- entry ---------------------------------------------------------
    def run(self, F, cls=None, pvals=None):
        this = ('this', cls or F.cls)
        self.objs[this] = cls or F.cls
        fr = {"id": next(self.ids), "F": F, "this": this, "alias": {}, "ret": []}
        for i, p in enumerate(F.params):
            if pvals and i < len(pvals) and pvals[i] is not None:
                self.store[('var', p["d"], fr["id"])] = pvals[i]
            elif not pvals:
                self.store[('var', p["d"], fr["id"])] = ('param', p["n"])
        self.stack.append((F, None))
        self.body(F.body, fr)
        self.stack.pop()
        self.ret = fr["ret"]
        return self.items


PURE = ("at", "begin", "end", "cbegin", "cend", "find", "front", "back", "data", "c_str", "size", "empty", "count", "second", "first", "get", "value",
        "operator[]", "lower_bound", "upper_bound", "contains", "stream", "rbegin", "rend", "substr", "length", "str")


def returned(items, tail=None):
    """the value a body returns, as a choice between its return statements; tail if it runs off its end"""
    for n, i in enumerate(items):
        if i[0] == 'ret':
            return i[1]
        if i[0] == 'alt' and (any_ret(i[2]) or any_ret(i[3])):
            r = returned(items[n + 1:], tail)
            a, b = returned(i[2], r), returned(i[3], r)
            if a is None or b is None:
                return a or b
            return a if a == b else ('op', 'phi', (i[1], a, b))
        if i[0] == 'loop' and any_ret(i[3]):
            r = returned(items[n + 1:], tail)
            return ('first', i[1], returned(i[3], ('none',)), r)
    return tail


def any_ret(items):
    return any(i[0] == 'ret' or i[0] == 'alt' and (any_ret(i[2]) or any_ret(i[3])) or i[0] == 'loop' and any_ret(i[3]) for i in items)


def drop_rets(items, leave=False):
    out = []
    for i in items:
        if i[0] == 'ret':
            if not leave:
                continue
            i = ('leave',) + i[1:]
        if i[0] == 'alt':
            i = i[:2] + (drop_rets(i[2], leave), drop_rets(i[3], leave)) + i[4:6] + tuple(None if x == 'ret' else x for x in i[6:])
            if not i[2] and not i[3] and 'dead' not in i[6:]:
                continue
        elif i[0] == 'loop':
            i = i[:3] + (drop_rets(i[3], True),) + i[4:]
        out.append(i)
    return out


def has_elem(l):
    while isinstance(l, tuple) and l[0] in ('m', 'at', '*', 'elem') and isinstance(l[1], tuple):
        if l[0] == 'elem':
            return True
        l = l[1]
    return False


def under(k, loc):
    while isinstance(k, tuple) and k and k[0] in ('m', 'at', '*'):
        k = k[1]
        if k == loc:
            return True
    return False


def leaves(items):
    return any(i[0] in ('ret', 'leave') or i[0] == 'alt' and (any(x in ('ret', 'break', 'dead') for x in i[6:8]) or leaves(i[2]) or leaves(i[3])) for i in items)


def root(l):
    while l[0] in ('m', 'at', '*', 'elem') and isinstance(l[1], tuple):
        l = l[1]
    return l


def effects(n):
    return False


def walk1(n):
    if not isinstance(n, Node):
        return
    from frontend import walk
    yield from walk(n)


def terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from terms(x)


def anon(t, uid):
    """a term over one loop's elements, independent of the loop's identity"""
    if t == uid:
        return '#'
    if not t:
        return t
    if t[0] == 'op' and t[1] == '!' and t[2][0][0] == 'op' and t[2][0][1] == '!':
        return anon(t[2][0][2][0], uid)
    if t[0] in ('k', 'str'):
        return t
    return tuple(anon(x, uid) if isinstance(x, tuple) else '#' if t[0] in ('elem', 'idx') and x == uid else x for x in t)


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not t or t[0] in ('k', 'str'):
        return t
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 6:
        return "…"
    h = t[0]
    s = lambda x: show(x, d + 1)
    if h == 'k':
        return str(t[1])
    if h == 'str':
        return repr(t[1])
    if h == 'm':
        return s(t[1]) + "." + t[2]
    if h == 'var':
        return str(t[1]).split("#")[0]
    if h == 'this':
        return "this"
    if h == 'elem':
        return "each of " + s(t[1])
    if h == 'at':
        return s(t[1]) + "[" + s(t[2]) + "]"
    if h == 'call':
        return (s(t[2]) + "." if t[2] else "") + short(t[1]) + "(" + ", ".join(s(x) for x in t[3]) + ")"
    if h == 'size':
        return "number of " + s(t[1])
    if h == 'op':
        if len(t[2]) == 2:
            return "(%s %s %s)" % (s(t[2][0]), t[1], s(t[2][1]))
        return t[1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if h == 'g':
        return str(t[1]).split("::")[-1]
    if h == 'tok':
        return "value read #%d" % t[1]
    if h == 'new':
        return short(t[1]) + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if h == 'list':
        return "[" + ", ".join(s(x) for x in t[1]) + "]"
    return h
