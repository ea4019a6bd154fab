"""Helpers over the program model: access paths, expression rendering,
constant values, generic forward dataflow with branch refinement."""
import re
from collections import deque
from frontend import Node, walk, subnodes

NOISE_CASTS = {"NoOp", "LValueToRValue", "IntegralCast", "BitCast", "DerivedToBase",
               "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion",
               "PointerToIntegral", "IntegralToPointer", "BaseToDerived", "NullToPointer"}
CAST_KINDS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
              "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr", "BuiltinBitCastExpr")


def is_call(n):
    return n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")


def is_cast(n):
    return n is not None and n.k in CAST_KINDS


def strip(n, all_casts=True):
    """Look through casts, std::move/forward, copy/move construction, single
    element init lists."""
    while isinstance(n, Node):
        if is_cast(n):
            if not all_casts and n.ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating"):
                return n
            n = n.ch[0]
        elif n.k == "CXXDefaultArgExpr":
            n = n.ch[0]
        elif n.k == "CXXConstructExpr" and n.copy and len(n.ch) == 1:
            n = n.ch[0]
        elif n.k == "CallExpr" and n.f in ("std::move", "std::forward", "absl::implicit_cast", "google::GetReferenceableValue",
                                               "absl::log_internal::GetReferenceableValue") and len(n.ch) == 2:
            n = n.ch[1]
        elif n.k in ("CXXRewrittenBinaryOperator", "ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr",
                     "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            n = n.ch[0]
        elif n.k == "CXXConstructExpr" and len(n.ch) == 1 and "iterator" in (n.t or "") and "iterator" in (n.ch[0].t or ""):
            n = n.ch[0]
        elif n.k == "InitListExpr" and len(n.ch) == 1 and not n.rec:
            n = n.ch[0]
        else:
            return n
    return n


def args(n):
    """Actual arguments of a call (without callee / implicit object)."""
    if n.k == "CXXMemberCallExpr":
        return n.ch[1:]
    if n.k == "CXXOperatorCallExpr":
        return n.ch[1:]
    if n.k == "CallExpr" or n.k == "UserDefinedLiteral":
        return n.ch[1:]
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return n.ch
    return ()


def base(n):
    """Implicit object argument of a member call."""
    if n.k == "CXXMemberCallExpr":
        m = n.ch[0]
        if m is not None and m.k == "MemberExpr":
            return m.ch[0]
        if m is not None and m.k == "BinaryOperator":  # pointer to member
            return m.ch[0]
    return None


def cval(n):
    """Integer constant value or None."""
    if n is None:
        return None
    v = n.get("cv")
    if v is None and is_cast(n):
        return cval(n.ch[0])
    return int(v) if v is not None else None


def path(n):
    """Canonical access path of an lvalue-like expression, or None.
    Pointers and the objects they refer to share a path: a->b and (*a).b both
    give 'a.b' (types disambiguate)."""
    n = strip(n)
    if not isinstance(n, Node):
        return None
    k = n.k
    if k == "DeclRefExpr":
        if n.dk in ("Function", "CXXMethod", "EnumConstant"):
            return None
        b = n.get("bind")
        if b is not None:
            p = path(b)
            if p:
                return p
        return n.d
    if k == "CXXThisExpr":
        return "this"
    if k == "MemberExpr":
        b = path(n.ch[0]) if n.ch else "this"
        return None if b is None else b + "." + n.n
    if k == "UnaryOperator" and n.op in ("*", "&"):
        return path(n.ch[0])
    if k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.ch) == 2:
        return path(n.ch[1])
    if k == "ArraySubscriptExpr":
        b = path(n.ch[0])
        c = cval(n.ch[1])
        if b is None:
            return None
        if c is not None:
            return "%s[%d]" % (b, c)
        p = path(n.ch[1])
        return "%s[%s]" % (b, p) if p else None
    if k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr":
        nm = n.ch[0].n
        if nm in ("get", "value", "operator*", "operator->") and len(n.ch) == 1:
            return path(n.ch[0].ch[0])
        # const getter without arguments: treat as stable path component
        if len(n.ch) == 1 and n.mconst:
            b = path(n.ch[0].ch[0]) if n.ch[0].ch else "this"
            return None if b is None else b + "." + nm + "()"
    return None


def show(n, depth=0):
    """Readable rendering (diagnostics and value-number keys)."""
    if not isinstance(n, Node):
        return "?"
    if depth > 12:
        return "..."
    d = depth + 1
    k = n.k
    if k == "DeclRefExpr":
        return n.n or "?"
    if k == "CXXThisExpr":
        return "this"
    if k == "MemberExpr":
        b = n.ch[0] if n.ch else None
        if b is not None and b.k == "CXXThisExpr" and b.impl:
            return n.n
        return show(b, d) + ("->" if n.arrow else ".") + (n.n or "?")
    if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
        return n.cv
    if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
        return "nullptr"
    if k == "StringLiteral":
        return '"%s"' % (n.get("str") or "")
    if is_cast(n):
        return show(n.ch[0], d)
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s %s %s)" % (show(n.ch[0], d), n.op, show(n.ch[1], d))
    if k == "UnaryOperator":
        return (show(n.ch[0], d) + n.op) if n.post else (n.op + show(n.ch[0], d))
    if k == "CXXOperatorCallExpr":
        a = n.ch[1:]
        if n.op == "[]":
            return "%s[%s]" % (show(a[0], d), show(a[1], d))
        if n.op == "()":
            return "%s(%s)" % (show(a[0], d), ", ".join(show(x, d) for x in a[1:]))
        if len(a) == 1:
            return n.op + show(a[0], d)
        return "(%s %s %s)" % (show(a[0], d), n.op, show(a[1], d))
    if is_call(n):
        return "%s(%s)" % (show(n.ch[0], d), ", ".join(show(x, d) for x in n.ch[1:]))
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (show(n.ch[0], d), show(n.ch[1], d))
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        if len(n.ch) == 1:
            return show(n.ch[0], d)
        return "%s(%s)" % ((n.cls or "").split("::")[-1], ", ".join(show(x, d) for x in n.ch))
    if k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(show(x, d) for x in n.ch[:3])
    if k == "InitListExpr":
        return "{%s}" % ", ".join(show(x, d) for x in n.ch)
    if k == "LambdaExpr":
        return "<lambda>"
    if k == "UnaryExprOrTypeTraitExpr":
        return "sizeof(%s)" % (n.sizeof or "")
    if k == "CXXDefaultArgExpr":
        return show(n.ch[0], d)
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in n.ch))


def assigned_paths(n):
    """(path, node, value) triples written by this single node (no recursion)."""
    out = []
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.op == "=" or (n.op or "").endswith("=") and n.op not in ("==", "!=", "<=", ">=")):
        p = path(n.ch[0])
        if p:
            out.append((p, n, n.ch[1] if n.op == "=" else None))
    elif n.k == "UnaryOperator" and n.op in ("++", "--"):
        p = path(n.ch[0])
        if p:
            out.append((p, n, None))
    elif n.k == "CXXOperatorCallExpr" and (n.op in ("=", "++", "--") or (n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="))):
        p = path(n.ch[1])
        if p:
            out.append((p, n, n.ch[2] if n.op == "=" and len(n.ch) > 2 else None))
    elif n.k == "DeclStmt":
        for v in n.ch:
            out.append((v.d, v, v.get("init")))
    return out


def call_mutates(n):
    """Access paths that a call may modify (by reference / pointer / object)."""
    out = []
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return out
    if not is_call(n):
        return out
    if n.k == "CXXMemberCallExpr" and not n.mconst:
        b = base(n)
        p = path(b) if b is not None else None
        if p:
            out.append(p)
    a = args(n)
    pm = n.pm or []
    if n.k == "CXXOperatorCallExpr" and n.cls:
        # first argument is the object
        if not n.mconst and a:
            p = path(a[0])
            if p and n.op not in ("*", "->", "[]", "==", "!=", "<", ">", "()", "bool"):
                out.append(p)
        a = a[1:]
    for i, x in enumerate(a):
        m = pm[i] if i < len(pm) else "v"
        sx = strip(x)
        if m == "r":
            p = path(x)
            if p:
                out.append(p)
        elif m in ("p",) or (m == "v" and sx is not None and sx.k == "UnaryOperator" and sx.op == "&"):
            if sx is not None and sx.k == "UnaryOperator" and sx.op == "&":
                p = path(sx.ch[0])
                if p:
                    out.append(p)
    return out


class Dataflow:
    """Forward may/must dataflow over a Function's CFG.
    Subclass: initial(), copy(s), join(a,b)->s, transfer(s, node), refine(s, cond, taken, block)->s|None"""

    def __init__(self, fn):
        self.fn = fn

    def initial(self):
        return {}

    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        raise NotImplementedError

    def transfer(self, s, n):
        pass

    def refine(self, s, cond, taken, blk):
        return s

    def refine_case(self, s, blk, succ):
        return s

    def dtor(self, s, e):
        pass

    def run(self):
        fn = self.fn
        B = fn.blocks
        self.inn = {}
        if not B:
            return
        self.inn[fn.entry] = self.initial()
        # reverse post order
        order = []
        seen = set()
        st = [(fn.entry, iter([s for s in B[fn.entry].succ if s is not None]))]
        seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([x for x in B[s].succ if x is not None])))
                    break
            else:
                order.append(b)
                st.pop()
        rank = {b: i for i, b in enumerate(reversed(order))}
        import heapq
        wl = [(0, fn.entry)]
        inq = {fn.entry}
        n = 0
        self.out_edges = {}
        while wl:
            _, b = heapq.heappop(wl)
            inq.discard(b)
            n += 1
            if n > 200000:
                raise RuntimeError("dataflow does not converge in " + fn.key)
            blk = B[b]
            s = self.copy(self.inn[b])
            for e in blk.elems:
                if isinstance(e, Node) and "dtor" in e and "k" not in e:
                    self.dtor(s, e)
                else:
                    self.transfer(s, e)
            if blk.noret:
                continue
            for i, t in enumerate(blk.succ):
                if t is None:
                    continue
                s2 = self.copy(s)
                if blk.cond is not None and len(blk.succ) == 2 and not blk.tdb and blk.tk != "SwitchStmt":
                    s2 = self.refine(s2, blk.cond, i == 0, blk)
                elif blk.tk == "SwitchStmt":
                    s2 = self.refine_case(s2, blk, B[t])
                if s2 is None:
                    continue
                if t not in self.inn:
                    self.inn[t] = s2
                else:
                    j = self.join(self.copy(self.inn[t]), s2)
                    if j == self.inn[t]:
                        continue
                    self.inn[t] = j
                if t not in inq:
                    inq.add(t)
                    heapq.heappush(wl, (rank.get(t, 0), t))

    def visit(self, cb):
        """After run(): cb(state_before, node) for every element, and
        cb_end via return of final state per block."""
        for b, blk in self.fn.blocks.items():
            if b not in self.inn:
                continue
            s = self.copy(self.inn[b])
            for e in blk.elems:
                if isinstance(e, Node) and "dtor" in e and "k" not in e:
                    self.dtor(s, e)
                    continue
                cb(s, e, blk)
                self.transfer(s, e)


CHECKOP = re.compile(r"(?:.*::)?(?:Check_?)(EQ|NE|LT|LE|GT|GE)Impl")
CHECKOPS = {"EQ": "==", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">="}


def cond_atoms(cond, taken):
    """Decompose a branch condition into (atom, polarity) pairs known to hold.
    && / || are already split by the CFG when they are control flow; handle the
    residual negations / conjunctions."""
    out = []

    def rec(n, pol):
        n = strip(n)
        if n is None:
            return
        if n.k == "UnaryOperator" and n.op == "!":
            rec(n.ch[0], not pol)
            return
        if n.k == "CXXOperatorCallExpr" and n.op == "!":
            rec(n.ch[1], not pol)
            return
        if n.k == "BinaryOperator" and ((n.op == "&&" and pol) or (n.op == "||" and not pol)):
            rec(n.ch[0], pol)
            rec(n.ch[1], pol)
            return
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            # one constant operand: "false || x", "true && x"
            neutral = 0 if n.op == "||" else 1
            for a, b in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
                c = cval(a)
                if c is not None and (c != 0) == neutral:
                    rec(b, pol)
                    return
        if n.k == "CallExpr" and n.f in ("__builtin_expect",):
            rec(n.ch[1], pol)
            return
        if n.k == "DeclRefExpr" and n.s == "p" and n.fn is not None:
            v = n.fn.vars.get(n.d)
            i = strip(v.get("init")) if v is not None else None
            m = CHECKOP.match(i.f or "") if i is not None and i.k == "CallExpr" and len(i.ch) > 2 else None
            if m:
                syn = Node({"k": "BinaryOperator", "op": CHECKOPS[m.group(1)], "c": [i.ch[1], i.ch[2]], "s": "b",
                            "i": i["i"], "l": i.l, "syn": 1})
                syn.parent, syn.fn = i.parent, i.fn
                rec(syn, not pol)
                return
        out.append((n, pol))
    rec(cond, taken)
    return out


def prefix_of(p, q):
    """p is q or an ancestor of q."""
    return q == p or q.startswith(p + ".") or q.startswith(p + "[")


def reassigned(fn):
    """declarations of fn written after their initialisation"""
    if getattr(fn, "_reass", None) is None:
        out = set()
        for n in fn.walk():
            if n.k == "DeclStmt" or n.k == "VarDecl":
                continue
            for p, w, v in assigned_paths(n):
                out.add(p)
            for p in call_mutates(n):
                out.add(p)
            if n.k == "UnaryOperator" and n.op == "&":
                p = path(n.ch[0])
                if p:
                    out.add(p)
        fn._reass = out
    return fn._reass


def resolve(n, depth=0):
    """follow never-reassigned locals (non-reference or reference) to the
    expression that initialises them"""
    x = strip(n)
    if depth < 6 and x is not None and x.k == "DeclRefExpr" and x.fn is not None:
        v = x.fn.vars.get(x.d)
        if v is not None and isinstance(v.get("init"), Node) and x.d not in reassigned(x.fn):
            return resolve(v["init"], depth + 1)
    return x


def rpath(n):
    """access path with never-reassigned locals replaced by what they hold"""
    x = resolve(n)
    p = path(x)
    if p is None:
        return None
    root = p.split(".")[0].split("[")[0]
    if x.k != "DeclRefExpr" and isinstance(x, Node) and x.fn is not None:
        v = x.fn.vars.get(root)
        if v is not None and isinstance(v.get("init"), Node) and root not in reassigned(x.fn) and (v.ref or v.s == "p"):
            q = rpath(v["init"])
            if q:
                return q + p[len(root):]
    return p
