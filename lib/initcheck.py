"""Definite initialisation: constructors give every scalar member a value;
local scalars / aggregates are assigned on every path before they are read."""
from frontend import Node, walk
from ir import *

SC = ("u", "s", "b", "p", "e", "f")


def scalar(s):
    return bool(s) and s[0] in SC and s != "str"


class Init:
    def __init__(self, prog):
        self.prog = prog
        self.rec_by_q = {}
        for r in prog.records.values():
            self.rec_by_q.setdefault(r["q"], r)
        self.user_ctor = {}
        for F in prog.functions:
            if F.d.get("ctor"):
                self.user_ctor.setdefault(F.d.get("clsT") or F.cls, []).append(F)
        self._leaf = {}
        self._must = {}
        self._outs = {}
        self._spec = set()

    def record(self, t):
        t = (t or "").replace("const ", "").strip()
        return self.prog.records.get(t)

    def has_user_default_ctor(self, rec):
        return any(m.get("ctor") and m.get("defctor") and not m.get("implicit") and not m.get("defaulted")
                   for m in rec.get("methods", ()))

    def leaves(self, t):
        """Scalar sub-object paths left indeterminate by default-initialising t."""
        rec = self.record(t)
        if rec is None or rec.get("union"):
            return []
        k = rec["t"]
        if k in self._leaf:
            return self._leaf[k]
        self._leaf[k] = []
        if self.has_user_default_ctor(rec):
            return []
        out = []
        for b in rec.get("bases", ()):
            out += self.leaves(b)
        for f in rec["fields"]:
            if f.get("def") or f.get("ref") or not f["n"]:
                continue
            if scalar(f.get("s")):
                out.append(f["n"])
            elif f.get("s") == "r":
                out += [f["n"] + "." + x for x in self.leaves(f["t"])]
        self._leaf[k] = out
        return out

    # -- constructors -------------------------------------------------
    def ctor_obligations(self, F):
        rec = self.record(F.d.get("clsT") or F.cls)
        if rec is None or rec.get("union"):
            return None
        inited, nested, delegating = set(), {}, False
        for i in F.inits:
            m = i.get("m")
            if m is None:
                if F.d.get("delegating"):
                    delegating = True
                if i.get("base") and isinstance(i.get("init"), Node):
                    x = strip(i["init"])
                    if x is not None and x.k == "CXXConstructExpr" and x.defctor and not i.get("w"):
                        nested[""] = nested.get("", []) + self.leaves(x.t)
                continue
            x = i.get("init")
            if not isinstance(x, Node):
                continue
            sx = x
            if sx.k == "CXXConstructExpr" and sx.defctor and not i.get("w"):
                nested[m] = self.leaves(sx.t)
            inited.add(m)
        if delegating or F.d.get("delegating"):
            return []
        ob = []
        for f in rec["fields"]:
            if f.get("ref") or not f["n"]:
                continue
            if scalar(f.get("s")) and not f.get("def") and f["n"] not in inited:
                ob.append(f["n"])
        for m, ls in nested.items():
            ob += [(m + "." if m else "") + x for x in ls]
        return ob

    def must_assign(self, F, depth=0):
        """this.* paths definitely assigned when F returns normally."""
        if id(F) in self._must:
            return self._must[id(F)]
        self._must[id(F)] = frozenset()
        if depth > 4 or not F.blocks:
            return frozenset()
        A = Assign(self, F, depth)
        A.run()
        r = A.inn.get(F.exit)
        self._must[id(F)] = frozenset(r) if r is not None else None
        return self._must[id(F)] if self._must[id(F)] is not None else frozenset(["*"])

    def outs(self, F, depth=0):
        """indices of pointer/reference parameters F definitely writes before
        any return that does not report failure."""
        if F.key in self._outs:
            return self._outs[F.key]
        every = set(range(len(F.params)))
        self._outs[F.key] = every
        if depth > 4 or not F.blocks:
            return every
        o = OutParams(self, F, depth)
        # the failure convention (false / null / <= 0) excuses a path only for
        # functions whose result is a verdict rather than the datum itself
        o.failconv = any(n.k == "ReturnStmt" and n.ch and strip(n.ch[0]) is not None and strip(n.ch[0]).s in ("b", "p")
                         for n in F.walk())
        o.run()
        r = o.inn.get(F.exit)
        if r is not None:
            self._outs[F.key] = {i for i, p in enumerate(F.params) if p["d"] in r}
        return self._outs[F.key]

    def check_ctor(self, F):
        ob = self.ctor_obligations(F)
        if ob is None:
            return None, []
        if not ob:
            return 0, []
        done = self.must_assign(F)
        bad = [o for o in ob if not any(prefix_of(d, "this." + o) for d in done) and "*" not in done]
        return len(ob), bad


def failing_return(v):
    """a return value that by convention reports failure"""
    v = strip(v)
    if v is None:
        return False
    if v.k == "CXXNullPtrLiteralExpr":
        return True
    c = cval(v)
    return c is not None and c <= 0


class OutParams(Dataflow):
    """parameters (by declaration) definitely written through."""

    def __init__(self, an, fn, depth):
        super().__init__(fn)
        self.an, self.depth = an, depth
        self.ps = {p["d"] for p in fn.params}
        self.rets = []
        self.fall = fn.d.get("ret") in ("bool",) or (fn.d.get("ret") or "").endswith("*")

    def initial(self):
        return set()

    def copy(self, s):
        return set(s)

    def join(self, a, b):
        return a & b

    def transfer(self, s, n):
        for p, w, v in assigned_paths(n):
            q = p.split(".")[0].split("[")[0]
            if q in self.ps:
                s.add(q)
        if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            G = self.an.prog.callee(n, self.fn) if is_call(n) else []
            ok = self.an.outs(G[0], self.depth + 1) if len(G) == 1 and G[0].blocks else None
            for i, a in enumerate(args(n)):
                p = path(a)
                q = p.split(".")[0].split("[")[0] if p else None
                if q in self.ps and (ok is None or i in ok):
                    s.add(q)
            if n.k == "CXXMemberCallExpr" and base(n) is not None:
                p = path(base(n))
                q = p.split(".")[0] if p else None
                if q in self.ps and not n.mconst:
                    s.add(q)
        if n.k == "LambdaExpr":
            s |= self.ps
        if n.k == "ReturnStmt" and n.ch and failing_return(n.ch[0]) and self.failconv:
            s |= self.ps


class Assign(Dataflow):
    """must-assigned this.* paths."""

    def __init__(self, an, fn, depth):
        super().__init__(fn)
        self.an, self.depth = an, depth

    def initial(self):
        return set()

    def copy(self, s):
        return set(s)

    def join(self, a, b):
        return a & b

    def transfer(self, s, n):
        for p, w, v in assigned_paths(n):
            if p.startswith("this.") or p == "this":
                s.add(p)
        if n.k == "CtorInit" and n.get("m"):
            s.add("this." + n.m)
        if is_call(n):
            for p in call_mutates(n):
                if p.startswith("this.") and not (n.k == "CXXMemberCallExpr" and p == path(base(n))):
                    s.add(p)
            if n.k == "CallExpr" and n.f in ("memset", "memcpy") and len(n.ch) > 1:
                p = path(n.ch[1])
                if p and (p == "this" or p.startswith("this.")):
                    s.add(p)
            if n.k == "CXXMemberCallExpr":
                b = base(n)
                pb = path(b) if b is not None else None
                if pb and (pb == "this" or pb.startswith("this.")) and not n.virt:
                    for G in self.an.prog.callee(n, self.fn)[:1]:
                        for q in self.an.must_assign(G, self.depth + 1):
                            if q != "*" and q.startswith("this"):
                                s.add(pb + q[4:])


class Locals(Dataflow):
    """may-be-uninitialised local paths -> declaration line."""

    def __init__(self, an, fn):
        super().__init__(fn)
        self.an = an

    def initial(self):
        return {}

    def join(self, a, b):
        a.update(b)
        return a

    def kill(self, s, p):
        for k in [k for k in s if prefix_of(p, k)]:
            del s[k]

    def decl(self, s, v):
        if v.get("static") or v.ref:
            return
        i = v.get("init")
        self.kill(s, v.d)
        if not isinstance(i, Node):
            if scalar(v.s):
                s[v.d] = v.l
            return
        x = strip(i)
        if x.k == "CXXConstructExpr" and x.defctor and not x.ch and not x.get("zero") and not x.get("list"):
            for l in self.an.leaves(x.t):
                s[v.d + "." + l] = v.l
        elif x.k == "CXXNewExpr":
            c = x.get("ctor") or (x.ch[0] if x.ch else None)
            if isinstance(c, Node) and c.k == "CXXConstructExpr" and c.defctor and not c.get("zero") and not c.ch:
                for l in self.an.leaves(c.t):
                    s[v.d + "." + l] = v.l

    def transfer(self, s, n):
        if n.k == "DeclStmt":
            for v in n.ch:
                if v.k == "VarDecl":
                    self.decl(s, v)
            return
        if n.k == "VarDecl":
            self.decl(s, n)
            return
        if not s:
            return
        for p, w, v in assigned_paths(n):
            self.kill(s, p)
        if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            G = self.an.prog.callee(n, self.fn) if is_call(n) else []
            outs = self.an.outs(G[0]) if len(G) == 1 and G[0].blocks else None
            keep = set()
            for i, a in enumerate(args(n)):
                sx = strip(a)
                amp = sx is not None and sx.k == "UnaryOperator" and sx.op == "&"
                p = path(sx.ch[0]) if amp else path(a)
                if p and outs is not None and i not in outs and n.k in ("CallExpr", "CXXMemberCallExpr"):
                    keep.add(p)
                elif amp and p:
                    self.kill(s, p)
            for p in call_mutates(n):
                if p in keep:
                    continue
                if n.k == "CXXMemberCallExpr" and p == path(base(n)):
                    G = self.an.prog.callee(n, self.fn)[:1]
                    if G:
                        for q in self.an.must_assign(G[0]):
                            if q.startswith("this"):
                                self.kill(s, p + q[4:])
                        continue
                self.kill(s, p)
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                pm = n.pm or []
                for i, a in enumerate(n.ch):
                    if i < len(pm) and pm[i] in ("r", "p"):
                        p = path(a)
                        if p:
                            self.kill(s, p)
        if n.k == "LambdaExpr":
            for c in n.get("caps") or ():
                if c.get("d"):
                    self.kill(s, c["d"])
                if isinstance(c.get("init"), Node) and path(c["init"]):
                    self.kill(s, path(c["init"]))
        if n.k == "UnaryOperator" and n.op == "&":
            # address escapes
            p = path(n.ch[0])
            par = n.parent
            if p and not (par is not None and is_call(par)):
                self.kill(s, p)
        if n.k == "CXXForRangeStmt" or n.k == "ReturnStmt":
            pass

    def uses(self, s, n):
        """maybe-uninitialised paths read by this element"""
        if not s:
            return
        if is_cast(n) and n.ck == "LValueToRValue":
            p = path(n.ch[0])
            if p and p in s:
                yield p
        elif n.k == "CompoundAssignOperator" or (n.k == "UnaryOperator" and n.op in ("++", "--")):
            p = path(n.ch[0])
            if p and p in s:
                yield p
        elif is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            pm = n.pm or []
            a = args(n)
            if n.k == "CXXOperatorCallExpr" and n.cls:
                a = a[1:]
            for i, x in enumerate(a):
                if i < len(pm) and pm[i] == "cr":
                    p = path(x)
                    if p and p in s:
                        yield p

    def refine(self, s, cond, taken, blk):
        return s


def check_locals(an, F):
    la = Locals(an, F)
    la.run()
    out, seen = [], set()
    cnt = [0]

    def cb(s, n, blk):
        if n.k == "DeclStmt":
            for v in n.ch:
                if v.k == "VarDecl" and (not isinstance(v.get("init"), Node)) and scalar(v.s):
                    cnt[0] += 1
        for p in la.uses(s, n):
            if (p, n.l) not in seen:
                seen.add((p, n.l))
                out.append((n, p, s[p]))
    la.visit(cb)
    return cnt[0], out
