"""Abstract interpretation of comparison and hash functions over order types.

A comparator sees its two operands only through their components (fields,
getters, entries looked up by them).  Every component of an operand is
abstracted to its rank among the values it may have (0 = null/zero < 1 < 2);
over this finite domain the comparator's source is evaluated for all
combinations, which decides whether it is an order or an equivalence."""
from itertools import product
from ir import *


def width(s):
    return int(s[1:]) if s and s[0] in "us" and s[1:].isdigit() else None


class Unknown(Exception):
    pass


class Need(Exception):
    pass


class Comp:
    """a component of one operand: side 0/1 and a path"""
    __slots__ = ("side", "path", "bits", "type")

    def __init__(self, side, path, bits=None, type=""):
        self.side, self.path, self.bits, self.type = side, path, bits, type or ""

    def text(self):
        return "char *" in self.type


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


MIXED = "compares %s of one operand with %s of the other"


class Eval:
    def __init__(self, prog, F, sides, ranks):
        self.P, self.F, self.ranks = prog, F, ranks
        self.env = dict(sides)          # declaration -> value
        self.used, self.notes, self.null = set(), [], False
        self.depth = 0

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Comp):
            self.used.add(v.path)
            k = (v.side, v.path)
            if k not in self.ranks:
                raise Need(v.path)
            return self.ranks[k]
        raise Unknown("value")

    def note(self, n, msg):
        w = (self.F.where(n), msg)
        if w not in self.notes:
            self.notes.append(w)

    def pair(self, a, b, n):
        if isinstance(a, Comp) and isinstance(b, Comp) and a.side != b.side and a.path != b.path:
            self.note(n, MIXED % (a.path or "the whole", b.path or "the whole"))

    def sign(self, a, b, n):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                raise Unknown("tuples")
            for x, y in zip(a, b):
                s = self.sign(x, y, n)
                if s:
                    return s
            return 0
        if isinstance(a, Comp) and isinstance(b, Comp) and a.path == "" and b.path == "":
            raise Unknown("whole")
        self.pair(a, b, n)
        x, y = self.num(a), self.num(b)
        return (x > y) - (x < y)

    def compare(self, op, a, b, n):
        if op == "<=>":
            return self.sign(a, b, n)
        if isinstance(a, Comp) and isinstance(b, Comp) and not a.path and not b.path and a.side != b.side:
            return self.whole(op, a, b, n)
        if isinstance(a, Comp) and isinstance(b, Comp) and a.side != b.side and a.text() and b.text() and n.k == "BinaryOperator":
            if self.num(a) and self.num(b):
                self.note(n, "compares where the strings %s are, not what they hold" % a.path.lstrip("."))
        s = self.sign(a, b, n)
        return {"==": s == 0, "!=": s != 0, "<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]

    def whole(self, op, a, b, n):
        for G in self.P.callee(n, self.F):
            return self.inline(G, [a, b] if not G.cls or len(G.params) == 2 else [b], a if len(G.params) == 1 else None, n)
        raise Unknown("whole operands")

    def inline(self, G, vals, this, n):
        if self.depth > 6 or G.body is None:
            raise Unknown("depth")
        e, F = self.env, self.F
        self.env = {p["d"]: v for p, v in zip(G.params, vals) if p.get("d")}
        if this is not None:
            self.env["this"] = this
        for d, v in e.items():        # captures
            self.env.setdefault(d, v)
        self.F = G
        self.depth += 1
        try:
            self.stmt(G.body)
        except _Ret as r:
            return r.v
        finally:
            self.env, self.F = e, F
            self.depth -= 1
        raise Unknown("no result")

    def derive(self, v, s, bits=None):
        return Comp(v.side, s, bits)

    def cut(self, n):
        while isinstance(n, Node):
            if is_cast(n):
                if n.get("ck") == "IntegralCast":
                    f, t = width(n.ch[0].get("s")), width(n.get("s"))
                    if f and t and t < f and cval(n) is None:
                        try:
                            v = self.ev(n.ch[0])
                        except Unknown:
                            v = None
                        if isinstance(v, Comp):
                            self.note(n, "looks at %d bits of %s only" % (t, v.path.lstrip(".")))
                n = n.ch[0]
            elif n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
                n = n.ch[0]
            else:
                return

    def ev(self, n):
        self.cut(n)
        n = strip(n)
        if not isinstance(n, Node):
            raise Unknown("nothing")
        k, ch = n.k, n.ch
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            self.null = True
            return 0
        if n.get("cv") is not None and k != "DeclRefExpr":
            return int(n.get("cv"))
        if k == "DeclRefExpr":
            b = n.get("bind")
            if b is not None and n.d not in self.env and n.get("hold") not in self.env:
                return self.ev(b)
            d = n.d if n.d in self.env else n.get("hold")
            if d in self.env:
                return self.env[d]
            if n.get("cv") is not None:
                return int(n.get("cv"))
            raise Unknown("variable %s" % n.n)
        if k == "CXXThisExpr":
            if "this" in self.env:
                return self.env["this"]
            raise Unknown("this")
        if k == "MemberExpr":
            b = self.ev(ch[0])
            if isinstance(b, Comp):
                return Comp(b.side, b.path + "." + n.n, n.get("s"), n.t)
            if isinstance(b, tuple) and n.n in ("first", "second"):
                return b[n.n == "second"]
            raise Unknown("member")
        if k == "UnaryOperator":
            v = self.ev(ch[0])
            if n.op == "!":
                if isinstance(v, Comp) and (ch[0].get("s") or "")[:1] == "p":
                    self.null = True
                return not self.num(v)
            if n.op == "-":
                return -self.num(v)
            if n.op in ("*", "&", "+"):
                return v
            raise Unknown(n.op)
        if k == "BinaryOperator":
            if n.op == "&&":
                return bool(self.truth(ch[0])) and bool(self.truth(ch[1]))
            if n.op == "||":
                return bool(self.truth(ch[0])) or bool(self.truth(ch[1]))
            if n.op == "=":
                v = self.ev(ch[1])
                d = strip(ch[0])
                if d.k != "DeclRefExpr":
                    raise Unknown("store")
                if not isinstance(v, (Comp, tuple)):
                    v = self.num(v)
                self.env[d.d] = v
                return v
            a, b = self.ev(ch[0]), self.ev(ch[1])
            if n.op in ("==", "!=", "<", ">", "<=", ">=", "<=>"):
                return self.compare(n.op, a, b, n)
            if n.op == "-":
                if isinstance(a, Comp) and isinstance(b, Comp) and a.side != b.side:
                    self.note(n, "the sign of a difference is no order: it may wrap around")
                    self.pair(a, b, n)
                return self.num(a) - self.num(b)
            if n.op in ("&", "|") and n.get("s") == "b":
                x, y = bool(self.num(a)), bool(self.num(b))
                return x and y if n.op == "&" else x or y
            raise Unknown(n.op)
        if k == "ConditionalOperator":
            return self.ev(ch[1]) if self.truth(ch[0]) else self.ev(ch[2])
        if k == "InitListExpr":
            return tuple(self.ev(x) for x in ch)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            xs = [x for x in ch if x.k != "CXXDefaultArgExpr"]
            if len(xs) == 1:
                return self.ev(xs[0])
            if "pair<" in (n.t or "") or "tuple<" in (n.t or ""):
                return tuple(self.ev(x) for x in xs)
            raise Unknown("construction")
        if is_call(n):
            return self.call(n)
        raise Unknown(k)

    def truth(self, n):
        v = self.ev(n)
        return bool(self.num(v))

    def call(self, n):
        a = list(args(n))
        nm = n.get("fn") or (n.get("f") or "").rsplit("::", 1)[-1]
        if n.k == "CXXOperatorCallExpr":
            op = n.op
            if op in ("==", "!=", "<", ">", "<=", ">=", "<=>") and len(a) == 2:
                x = self.ev(a[0])
                y = 0 if strip(a[1]).k == "CXXConstructExpr" and "__cmp_cat" in (strip(a[1]).t or strip(a[1]).get("cls") or "") else self.ev(a[1])
                return self.compare(op, x, y, n)
            if op in ("*", "->") and len(a) == 1:
                return self.ev(a[0])
            if op == "[]":
                try:
                    b = self.ev(a[0])
                except Unknown:
                    b = None
                i = self.ev(a[1])
                if isinstance(b, Comp) and isinstance(i, int):
                    return Comp(b.side, "%s[%d]" % (b.path, i))
                if b is None and isinstance(i, Comp):
                    return Comp(i.side, "%s[%s]" % (show(a[0]), i.path))
                raise Unknown("element")
            if op == "()":
                f = strip(a[0])
                v = self.F.vars.get(f.d) if f.k == "DeclRefExpr" else None
                lam = strip(v["init"]) if v is not None and v.get("init") is not None else f
                if isinstance(lam, Node) and lam.k == "LambdaExpr":
                    for G in self.P.lambdas.get(lam.get("fk"), []):
                        return self.inline(G, [self.ev(x) for x in a[1:]], None, n)
                for G in self.P.callee(n, self.F):
                    return self.inline(G, [self.ev(x) for x in a[1:]], None, n)
                t = (f.t or "")
                if "less<" in t or "greater<" in t or "equal_to<" in t:
                    x, y = self.ev(a[1]), self.ev(a[2])
                    return self.compare("<" if "less" in t else ">" if "greater" in t else "==", x, y, n)
            raise Unknown("operator" + str(op))
        b = base(n)
        if b is not None:
            try:
                bv = self.ev(b)
            except Unknown:
                cs = [self.ev(x) for x in a]
                if cs and all(isinstance(c, Comp) for c in cs) and len({c.side for c in cs}) == 1:
                    return Comp(cs[0].side, "%s.%s(%s)" % (show(b), nm, ",".join(c.path for c in cs)), n.get("s"))
                raise
            if nm == "compare" and len(a) == 1:
                y = self.ev(a[0])
                return self.sign(bv, y, n)
            if nm in ("get", "value", "data", "c_str") and not a:
                return bv
            tg = self.P.callee(n, self.F)
            if isinstance(bv, Comp) and not a:
                if len(tg) == 1 and tg[0].body is not None and sum(1 for _ in tg[0].walk()) < 30:
                    try:
                        return self.inline(tg[0], [], bv, n)
                    except Unknown:
                        pass
                return Comp(bv.side, "%s.%s()" % (bv.path, nm), n.get("s"), n.t)
            if len(tg) == 1:
                return self.inline(tg[0], [self.ev(x) for x in a], bv if isinstance(bv, Comp) else None, n)
            if isinstance(bv, Comp):
                raise Unknown("call")
            raise Unknown("call")
        if nm in ("tie", "forward_as_tuple", "make_tuple", "make_pair"):
            return tuple(self.ev(x) for x in a)
        if nm in ("strcmp", "strcasecmp", "strncmp", "memcmp", "strcoll"):
            if nm in ("strncmp", "memcmp"):
                raise Unknown(nm)
            return self.sign(self.ev(a[0]), self.ev(a[1]), n)
        if nm in ("equal", "c_equal", "lexicographical_compare"):
            return self.ranges(n, nm, a)
        tg = self.P.callee(n, self.F)
        if len(tg) == 1:
            return self.inline(tg[0], [self.ev(x) for x in a], None, n)
        vs = []
        for x in a:
            try:
                vs.append(self.ev(x))
            except Unknown:
                vs.append(None)
        cs = [v for v in vs if isinstance(v, Comp)]
        if cs and len({c.side for c in cs}) == 1:
            return Comp(cs[0].side, "%s(%s)" % (nm, ",".join(v.path if isinstance(v, Comp) else "_" for v in vs)), n.get("s"))
        raise Unknown(nm)

    def ranges(self, n, nm, a):
        def whole(e):
            e = strip(e)
            return self.ev(base(e)) if e.k == "CXXMemberCallExpr" and e.get("fn") in ("begin", "end", "cbegin", "cend") else None
        if nm == "c_equal":
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.compare("==", x, y, n)
        vs = [whole(x) for x in a]
        if len(a) < 3 or any(not isinstance(v, Comp) for v in vs[:3]):
            raise Unknown(nm)
        if nm == "equal" and (len(a) == 3 or not isinstance(vs[3], Comp)):
            # lengths must have been compared by something else
            key = (vs[0].side, vs[0].path + ".size()")
            self.note(n, "compares only as many elements as one operand has; the other may be shorter or longer")
        return self.compare("<" if nm[0] == "l" else "==", vs[0], vs[2], n)

    def stmt(self, n):
        if not isinstance(n, Node):
            return
        k = n.k
        if k == "CompoundStmt":
            for x in n.ch:
                self.stmt(x)
        elif k == "ReturnStmt":
            raise _Ret(self.ev(n.ch[0]) if n.ch else None)
        elif k == "IfStmt":
            if n.get("init") is not None:
                self.stmt(n["init"])
            if self.truth(n.ch[0]):
                self.stmt(n.ch[1])
            elif len(n.ch) > 2:
                self.stmt(n.ch[2])
        elif k == "DeclStmt":
            for v in n.ch:
                if v.k == "VarDecl":
                    i = v.get("init")
                    if i is None:
                        continue
                    if strip(i).k == "LambdaExpr":
                        continue
                    try:
                        x = self.ev(i)
                    except Unknown:
                        continue
                    self.env[v.d] = x
        elif k in ("ExprWithCleanups", "ConstantExpr", "ParenExpr"):
            self.stmt(n.ch[0])
        elif k == "NullStmt":
            pass
        elif k == "SwitchStmt" or k in ("ForStmt", "CXXForRangeStmt") or (k in ("WhileStmt", "DoStmt") and any(
                x.k == "ReturnStmt" for x in walk(n))):
            raise Unknown(k)
        elif k == "WhileStmt" or k == "DoStmt":
            pass                         # CHECK expansions
        else:
            if k == "BinaryOperator" and n.op == "=":
                self.ev(n)


class Table:
    """the comparator's result for every pair of order types"""

    def __init__(self, prog, F, method):
        self.P, self.F = prog, F
        self.comps, self.notes, self.null = [], [], False
        ps = [p["d"] for p in F.params]
        a, b = Comp(0, ""), Comp(1, "")
        self.sides = {"this": a, ps[0]: b} if method else {ps[0]: a, ps[1]: b}
        self.res = {}
        while True:
            try:
                self.fill()
                return
            except Need as e:
                if e.args[0] in self.comps:
                    raise Unknown("ranks")
                self.comps.append(e.args[0])
                if len(self.comps) > 6:
                    raise Unknown("too many components")

    def fill(self):
        self.res.clear()
        n = len(self.comps)
        self.dom = (0, 1, 2) if n <= 4 else (0, 1)
        for x in product(self.dom, repeat=n):
            for y in product(self.dom, repeat=n):
                rk = {(0, c): v for c, v in zip(self.comps, x)}
                rk.update({(1, c): v for c, v in zip(self.comps, y)})
                e = Eval(self.P, self.F, self.sides, rk)
                try:
                    e.stmt(self.F.body)
                    raise Unknown("no result")
                except _Ret as r:
                    v = r.v
                self.res[x, y] = bool(e.num(v))
                for w in e.notes:
                    if w not in self.notes:
                        self.notes.append(w)
                self.null = self.null or e.null

    def states(self):
        return list(product(self.dom, repeat=len(self.comps)))

    def showpair(self, x, y):
        return ", ".join("%s %s" % (c.lstrip(".") or "value", "<" if u < v else ">" if u > v else "=")
                         for c, u, v in zip(self.comps, x, y))

    def transitive(self, f):
        S = self.states()
        succ = {x: [y for y in S if f(x, y)] for x in S}
        for x in S:
            sx = set(succ[x])
            for y in succ[x]:
                for z in succ[y]:
                    if z not in sx:
                        return (x, y, z)
        return None


def hash_components(prog, F, method):
    """components a hash function reads of its operand"""
    p = [q for q in F.params if not (q.get("t") or "").startswith(("absl::hash_internal", "H"))]
    side = {F.params[-1]["d"]: Comp(0, "")}
    used = set()

    class Rec(Eval):
        def num(self, v):
            if isinstance(v, Comp):
                used.add(v.path + ("@" if v.text() else ""))
                return 1
            return Eval.num(self, v)
    e = Rec(prog, F, side, {})
    for n in F.walk():
        if is_call(n) and n.get("fn") in ("combine", "combine_contiguous", "HashOf", "Hash", "operator()"):
            for x in args(n):
                try:
                    v = e.ev(x)
                except (Unknown, Need):
                    continue
                if isinstance(v, Comp):
                    used.add(v.path + ("@" if v.text() else ""))
        elif n.k == "MemberExpr" and n.dk == "Field" and F.name == "operator()" and strip(n.ch[0]).k == "DeclRefExpr" \
                and strip(n.ch[0]).d == F.params[-1]["d"]:
            used.add("." + n.n + ("@" if "char *" in (n.t or "") else ""))
        elif n.k == "ReturnStmt" and n.ch:
            try:
                v = e.ev(n.ch[0])
                if isinstance(v, Comp) and v.path.startswith("."):
                    used.add(v.path + ("@" if v.text() else ""))
            except (Unknown, Need):
                pass
    return used
