"""Every variable and every member of a constructed object has a value before it is read."""
import initcheck
from frontend import Node
from wire import walk1
from core import Result


def check(prog, tier):
    r = Result("definite assignment over every function's CFG: each constructor leaves every scalar, pointer and enum "
               "member assigned on every completing path (member initialiser, in-class initialiser, body or callee), "
               "and each scalar/pointer local is assigned on every path before it is read, where a callee given its address counts only if every non-failing "
               "path of that callee writes through it")
    a = initcheck.Init(prog)
    for F in prog.functions:
        if not F.blocks:
            continue
        if F.d.get("ctor") and not F.d.get("implicit"):
            n, bad = a.check_ctor(F)
            r.count(constructors=1, members=n)
            for m in bad:
                r.add("%s|member %s" % (F.q, m), F.where(), "%s leaves member '%s' without a value" % (F.q, m))
        n, bad = initcheck.check_locals(a, F)
        r.count(functions_with_cfg=1, locals=n)
        for b in bad:
            r.add("%s|local %s" % (F.q, b[1].split("#")[0]), F.where(b[0]), "%s: '%s' may be read before it is assigned" % (F.q, b[1].split("#")[0]))
    statics(prog, r)
    r.require(r.counts.get("constructors", 0) > 20, "no constructors found")
    r.require(r.counts.get("locals", 0) > 20, "no locals found")
    return r


MUTATORS = ("push_back", "emplace_back", "insert", "emplace", "try_emplace", "assign", "append", "clear", "resize", "erase", "swap", "reset", "pop_back")


def statics(prog, r):
    """a local that outlives its call is not computed from that call's data"""
    for F in prog.functions:
        if F.body is None:
            continue
        for v in F.walk():
            if v.k != "VarDecl" or not v.get("static") or v.mac:
                continue
            r.count(static_locals=1)
            init = [c for c in v.ch if isinstance(c, Node)] + [v.get("init")]
            bad = None
            for c in init:
                if isinstance(c, Node) and any(live(x, v) for x in walk1(c)):
                    bad = v
            for n in F.walk() if bad is None and not (v.t or "").startswith("const ") and not (v.t or "").endswith(" const") else ():
                if n.k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr") and n.op in (
                        "=", "+=", "-=", "|=", "++", "--", "&=", "*=", "<<=", ">>="):
                    t = n.ch[1] if n.k == "CXXOperatorCallExpr" else n.ch[0]
                    if at(t, v):
                        bad = n
                elif n.k == "CXXMemberCallExpr" and (n.f or "").split("::")[-1] in MUTATORS and n.ch[0].ch and at(n.ch[0].ch[0], v):
                    bad = n
            if bad is not None:
                r.add("%s|static %s" % (F.q, v.n), F.where(bad), "%s: '%s' keeps what an earlier call left in it" % (F.q, v.n))


def at(n, v):
    """the variable itself, an element or a member of it"""
    while isinstance(n, Node):
        if n.k == "DeclRefExpr":
            return n.d == v.d
        if n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*", "->"):
            n = n.ch[1]
        elif n.ch:
            n = n.ch[0]
        else:
            return False
    return False


def live(x, v):
    if x.k == "CXXThisExpr":
        return True
    return x.k == "DeclRefExpr" and x.d != v.d and (x.get("dk") == "ParmVar" or x.get("dk") == "Var" and "#" in (x.d or "") and not x.get("glob"))
