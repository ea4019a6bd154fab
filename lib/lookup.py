"""Failed-lookup / absent-value dereference analysis (typestate over CFG)."""
from frontend import Node, walk
from ir import *

FINDERS = {"find", "lower_bound", "upper_bound"}
NULLABLE_LIB = {"fopen", "getenv", "strchr", "strrchr", "strstr", "strpbrk", "memchr", "fdopen", "realpath",
                "llvm::dyn_cast", "llvm::dyn_cast_or_null"}
NONNULL_SINKS = {"strlen": [0], "strcmp": [0, 1], "strncmp": [0, 1], "strcpy": [0, 1], "strncpy": [0, 1],
                 "strdup": [0], "atoi": [0], "memcpy": [0, 1], "fclose": [0], "fread": [3], "fwrite": [3],
                 "fgets": [2], "fscanf": [0], "fprintf": [0], "fputs": [1], "strchr": [0], "strrchr": [0],
                 "strstr": [0, 1], "feof": [0], "ftell": [0], "fseek": [0], "fputc": [1], "getc": [0], "fgetc": [0]}


def is_optional_type(t):
    t = t or ""
    for p in ("std::optional<", "absl::StatusOr<", "absl::optional<", "llvm::Expected<", "llvm::ErrorOr<", "std::unique_ptr<"):
        if t.startswith(p) or t.startswith("const " + p):
            return p[:-1]
    return None


def is_end_call(n):
    n = strip(n)
    return isinstance(n, Node) and ((n.k == "CXXMemberCallExpr" and n.ch[0].n in ("end", "cend")) or
                                    (n.k == "CallExpr" and n.f in ("std::end", "std::cend")))


def is_begin_call(n):
    n = strip(n)
    return isinstance(n, Node) and n.k == "CXXMemberCallExpr" and n.ch[0].n in ("begin", "cbegin")


def is_null(n):
    n = strip(n)
    return isinstance(n, Node) and (n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or
                                    (n.k == "IntegerLiteral" and n.cv == "0") or
                                    (n.k == "ImplicitValueInitExpr") or
                                    (n.k == "DeclRefExpr" and n.n == "nullopt"))


STR_FIND = {"find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"}
STR_AT = {"erase", "substr", "at", "replace", "insert", "copy", "remove_prefix", "take_front", "drop_front"}


def is_text(n):
    c = (n.cls or "") + (n.f or "")
    return any(x in c for x in ("basic_string", "StringRef", "string_view"))


def string_find(n):
    """n looks for text in text and answers a position"""
    return n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n in STR_FIND and is_text(n) and (n.s or "r")[0] == "u"


def is_npos(n):
    n = strip(n)
    if not isinstance(n, Node):
        return False
    return n.k in ("DeclRefExpr", "MemberExpr") and n.n == "npos" or cval(n) in (-1, (1 << 64) - 1)


def container_find(n):
    """n is an associative-container lookup returning an iterator."""
    if n.k != "CXXMemberCallExpr" or n.ch[0].k != "MemberExpr" or n.ch[0].n not in FINDERS:
        return False
    cls = n.cls or ""
    if "basic_string" in cls or "StringRef" in cls:
        return False
    return n.s != "b" and (n.s or "r")[0] not in "us"


class Lookup(Dataflow):
    def __init__(self, an, fn):
        super().__init__(fn)
        self.an = an

    def initial(self):
        return {"m": {}, "has": frozenset(), "cond": {}}

    def copy(self, s):
        return {"m": dict(s["m"]), "has": s["has"], "cond": dict(s["cond"])}

    def join(self, a, b):
        for k, v in b["m"].items():
            if k not in a["m"]:
                a["m"][k] = v
            else:
                a["m"][k] = (a["m"][k][0], min(a["m"][k][1], v[1]), a["m"][k][2] or v[2])
        a["has"] = a["has"] & b["has"]
        a["cond"] = {k: v for k, v in a["cond"].items() if b["cond"].get(k) is v}
        return a

    # ---- producers
    def produces(self, n, s):
        """(kind, nodeid, begin_possible) if expression n may be absent."""
        n0 = n
        n = strip(n)
        if not isinstance(n, Node):
            return None
        p = path(n)
        if p is not None and p in s["m"]:
            return s["m"][p]
        if n.k == "ConditionalOperator":
            return self.produces(n.ch[1], s) or self.produces(n.ch[2], s)
        if is_null(n) and n0.s == "p" and False:
            return ("ptr", n["i"], 0)
        if n.k == "CXXConstructExpr" and len(n.ch) == 1:
            return self.produces(n.ch[0], s)
        if container_find(n):
            key = (path(base(n)), show(n.ch[1]) if len(n.ch) > 1 else "")
            if n.ch[0].n == "find" and key in s["has"]:
                return None
            return ("iter", n["i"], 1 if n.ch[0].n != "find" else 0)
        if string_find(n):
            return ("pos", n["i"], 0)
        if is_call(n):
            if n.f in NULLABLE_LIB:
                return ("ptr", n["i"], 0)
            t = n.t or ""
            o = is_optional_type(t)
            if o and o != "std::unique_ptr":
                return ("opt", n["i"], 0)
            r = self.an.nullable_call(n, self.fn)
            if r:
                for F in self.an.prog.callee(n, self.fn):
                    fi = self.an.finds.get(id(F))
                    if fi and n.k == "CXXMemberCallExpr" and fi[1] < len(args(n)):
                        if (str(path(base(n))) + fi[0][4:], show(args(n)[fi[1]])) in s["has"]:
                            return None
                return (r, n["i"], 0)
        if n.k == "CXXDynamicCastExpr" and n.s == "p":
            return ("ptr", n["i"], 0)
        return None

    def kill(self, s, p):
        for k in [k for k in s["m"] if prefix_of(p, k)]:
            del s["m"][k]
        for k in [k for k, v in s["cond"].items() if k == p or p in v[1]]:
            del s["cond"][k]
        if s["has"]:
            s["has"] = frozenset(h for h in s["has"] if not (h[0] == p))

    def transfer(self, s, n):
        if n.k == "CtorInit":
            return
        for p, w, val in assigned_paths(n):
            if n.k in ("UnaryOperator", "CXXOperatorCallExpr") and n.op in ("--",) and p in s["m"]:
                # stepping back from a bound: valid once begin() was excluded
                del s["m"][p]
                continue
            if n.k in ("UnaryOperator", "CXXOperatorCallExpr") and n.op in ("++", "+=", "-=") and p in s["m"]:
                continue
            pr = self.produces(val, s) if isinstance(val, Node) else None
            if w.k == "VarDecl" and w.ref:
                # reference binding: alias; keep only if bound to producer call
                src = path(val) if isinstance(val, Node) else None
                if src is not None:
                    pr = s["m"].get(src)
            self.kill(s, p)
            if pr:
                s["m"][p] = pr
            if isinstance(val, Node) and w.s == "b" or (w.k == "VarDecl" and w.s == "b"):
                if isinstance(val, Node):
                    ps = frozenset(path(x) for x in walk(val) if path(x))
                    s["cond"][p] = (val, ps)
            elif isinstance(val, Node) and n.k == "BinaryOperator" and n.s == "b":
                ps = frozenset(path(x) for x in walk(val) if path(x))
                s["cond"][p] = (val, ps)
        if is_call(n):
            mt = call_mutates(n)
            nm = n.ch[0].n if n.k == "CXXMemberCallExpr" else None
            for p in mt:
                if n.k == "CXXMemberCallExpr" and p == path(base(n)):
                    if nm in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(n.ch) > 1:
                        s["has"] = s["has"] | {(p, show(n.ch[1]))}
                        continue
                    if nm in ("erase", "clear", "reset", "release", "swap", "extract"):
                        self.kill(s, p)
                        continue
                    # other non-const member call: contents may change
                    for k in [k for k in s["m"] if k != p and prefix_of(p, k)]:
                        del s["m"][k]
                    continue
                self.kill(s, p)
            if n.k == "CXXMemberCallExpr":
                for F in self.an.prog.callee(n, self.fn):
                    for b, i in self.an.inserts.get(id(F), ()):
                        if i < len(args(n)):
                            s["has"] = s["has"] | {(str(path(base(n))) + b[4:], show(args(n)[i]))}
            if n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.ch) > 2:
                p = path(n.ch[1])
                if p:
                    s["has"] = s["has"] | {(p, show(n.ch[2]))}

    def refine(self, s, cond, taken, blk):
        self._ref(s, cond, taken, 0)
        return s

    def _valid(self, s, p):
        if p in s["m"]:
            del s["m"][p]

    def _ref(self, s, cond, taken, depth):
        if depth > 6:
            return
        for a, pol in cond_atoms(cond, taken):
            op = a.op
            lhs = rhs = None
            if a.k == "BinaryOperator" and op in ("==", "!="):
                lhs, rhs = a.ch
            elif a.k == "CXXOperatorCallExpr" and op in ("==", "!=") and len(a.ch) == 3:
                lhs, rhs = a.ch[1], a.ch[2]
            if lhs is not None:
                eq = (op == "==") == pol
                for x, y in ((lhs, rhs), (rhs, lhs)):
                    sx = strip(x)
                    px = path(x)
                    if sx is not None and sx.k in ("BinaryOperator",) and sx.op == "=":
                        px = path(sx.ch[0])
                    if sx is not None and sx.k == "CXXOperatorCallExpr" and sx.op == "=":
                        px = path(sx.ch[1])
                    if is_npos(y) and not eq and px and s["m"].get(px, ("",))[0] == "pos":
                        self._valid(s, px)
                    elif is_end_call(y) and not eq:
                        if px:
                            e = s["m"].get(px)
                            if e:
                                del s["m"][px]
                        if sx is not None and container_find(sx):
                            s["has"] = s["has"] | {(path(base(sx)), show(sx.ch[1]))}
                    elif is_begin_call(y) and not eq:
                        if px and px in s["m"]:
                            e = s["m"][px]
                            s["m"][px] = (e[0], e[1], 0)
                    elif is_null(y) and not eq:
                        if px:
                            self._valid(s, px)
                    elif not eq and px and path(y) and False:
                        pass
                    # bool compared with literal
                    c = cval(y)
                    if c is not None and a.k == "BinaryOperator" and sx is not None and sx.s == "b":
                        self._ref(s, x, (c != 0) == eq, depth + 1)
                    if c is not None and not is_null(y) and False:
                        pass
                    # count(k) != 0
                    if c == 0 and not eq and sx is not None and sx.k == "CXXMemberCallExpr" and sx.ch[0].n == "count":
                        s["has"] = s["has"] | {(path(base(sx)), show(sx.ch[1]))}
                continue
            if a.k == "BinaryOperator" and op in (">", ">=", "<", "<="):
                for x, lt in ((a.ch[0], op == "<" and pol or op == ">=" and not pol), (a.ch[1], op == ">" and pol or op == "<=" and not pol)):
                    if lt and s["m"].get(path(x), ("",))[0] == "pos":
                        self._valid(s, path(x))
                if pol:
                    continue
            # truthiness
            if a.k == "CXXMemberCallExpr":
                nm = a.ch[0].n
                b = base(a)
                pb = path(b) if b is not None else None
                if nm in ("has_value", "ok", "operator bool") and pol and pb:
                    self._valid(s, pb)
                    continue
                if nm in ("contains", "count") and pol and len(a.ch) > 1:
                    s["has"] = s["has"] | {(pb, show(a.ch[1]))}
                    continue
            if is_call(a):
                # predicate helper with a single return expression: inline
                for F in self.an.prog.callee(a, self.fn):
                    e = single_return(F)
                    if e is not None:
                        sub = bind_args(F, a)
                        self._ref_sub(s, e, pol, sub, depth + 1)
                        break
            p = path(a)
            sa = strip(a)
            if sa is not None and sa.k == "BinaryOperator" and sa.op == "=":
                p = path(sa.ch[0])
            if p:
                if pol and s["m"].get(p, ("",))[0] != "pos":
                    self._valid(s, p)
                cnd = s["cond"].get(p)
                if cnd is not None:
                    self._ref(s, cnd[0], pol, depth + 1)
            if a.k == "DeclRefExpr" or a.k == "VarDecl":
                pass

    def _ref_sub(self, s, e, pol, sub, depth):
        """Refine with a callee's predicate, translating parameter paths."""
        tmp = {"m": {}, "has": frozenset(), "cond": {}}
        for pk, ap in sub.items():
            for k, v in s["m"].items():
                if prefix_of(ap, k):
                    tmp["m"][pk + k[len(ap):]] = v
        before = dict(tmp["m"])
        self._ref(tmp, e, pol, depth)
        for pk, ap in sub.items():
            for k in before:
                if prefix_of(pk, k) and k not in tmp["m"]:
                    self._valid(s, ap + k[len(pk):])

    def presupposed(self, n, s):
        """Direct use of a lookup whose key the function does not choose:
        * the key is a by-contract parameter (never reassigned), or
        * the key is an element of a local collection filled in this function
          from keys of the container, or of the container itself."""
        if not (container_find(n) and n.ch[0].n == "find" and len(n.ch) > 1):
            return False
        k = strip(n.ch[1])
        while k is not None and k.k in ("CXXMemberCallExpr", "CXXConstructExpr") and len(k.ch) == 1 and \
                (k.k == "CXXConstructExpr" or (k.ch[0].k == "MemberExpr" and k.ch[0].n in ("c_str", "data"))):
            k = strip(k.ch[0] if k.k == "CXXConstructExpr" else k.ch[0].ch[0])
        if k is None or k.k != "DeclRefExpr":
            return False
        if k.dk == "ParmVar":
            return k.d not in self.assigned()
        return k.d in self.an.key_vars(self.fn, path(base(n)))

    def assigned(self):
        if not hasattr(self, "_asg"):
            self._asg = set()
            for x in self.fn.walk():
                for p, _, _ in assigned_paths(x):
                    self._asg.add(p)
                for p in call_mutates(x):
                    self._asg.add(p)
        return self._asg

    # ---- obligations
    def derefs(self, s, n):
        """Yield (origin, description) if n dereferences something absent."""
        def origin(x):
            x0 = strip(x)
            p = path(x0)
            if p is not None and p in s["m"]:
                return s["m"][p]
            if isinstance(x0, Node) and (is_call(x0) or x0.k == "CXXDynamicCastExpr"):
                if self.presupposed(x0, s):
                    return None
                return self.produces(x0, s)
            return None
        tgt = None
        at = None
        if n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n in STR_AT and is_text(n) and len(n.ch) > 1:
            at = strip(n.ch[1])
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.ch) > 2 and is_text(n):
            at = strip(n.ch[2])
        if isinstance(at, Node):
            wrap = at.k == "BinaryOperator" and at.op == "+" and 1 in (cval(at.ch[0]), cval(at.ch[1]))
            for x in walk(at):
                o = s["m"].get(path(x)) if path(x) else ("pos", x["i"], 0) if string_find(x) else None
                if o and o[0] == "pos" and not wrap:
                    yield o, "used as a position in a text", x
                    return
        if n.k == "MemberExpr" and n.arrow and n.ch:
            b = n.ch[0]
            if b.k == "CXXOperatorCallExpr":
                return  # operator-> node handles it
            tgt = b
            if strip(b) is not None and strip(b).k == "CXXThisExpr":
                return
        elif n.k == "UnaryOperator" and n.op == "*":
            tgt = n.ch[0]
        elif n.k == "ArraySubscriptExpr":
            tgt = n.ch[0]
        elif n.k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.ch) == 2:
            tgt = n.ch[1]
        elif n.k == "CXXMemberCallExpr" and n.ch[0].n in ("operator*", "operator->") and len(n.ch) == 1:
            if is_optional_type((base(n) or n).t):
                tgt = base(n)
        elif n.k in ("CXXOperatorCallExpr", "UnaryOperator") and n.op == "--":
            x = n.ch[1] if n.k == "CXXOperatorCallExpr" else n.ch[0]
            p = path(x)
            if p in s["m"] and s["m"][p][0] == "iter" and s["m"][p][2]:
                yield s["m"][p], "stepped back without excluding begin()", x
            return
        elif n.k == "CallExpr" and n.f in ("std::prev",) and len(n.ch) > 1:
            o = origin(n.ch[1])
            if o and o[0] == "iter" and o[2]:
                yield o, "stepped back without excluding begin()", n.ch[1]
            return
        elif n.k == "CallExpr" and n.f in NONNULL_SINKS:
            a = args(n)
            for i in NONNULL_SINKS[n.f]:
                if i < len(a):
                    o = origin(a[i])
                    if o and o[0] == "ptr":
                        yield o, "passed to %s, which requires a non-null pointer" % n.f, a[i]
            return
        elif n.k == "CXXConstructExpr" and "basic_string" in (n.cls or "") and n.ch and n.ch[0] is not None and n.ch[0].s == "p":
            o = origin(n.ch[0])
            if o and o[0] == "ptr":
                yield o, "used to construct a string", n.ch[0]
            return
        if tgt is not None:
            o = origin(tgt)
            if o:
                yield o, "dereferenced", tgt


def single_return(F):
    b = F.body
    if b is None or b.k != "CompoundStmt":
        return None
    st = [x for x in b.ch if x is not None and x.k != "NullStmt"]
    if len(st) == 1 and st[0].k == "ReturnStmt" and st[0].ch:
        return st[0].ch[0]
    return None


def bind_args(F, call):
    sub = {}
    for p, a in zip(F.params, args(call)):
        ap = path(a)
        if ap:
            sub[p["d"]] = ap
    if call.k == "CXXMemberCallExpr":
        b = path(base(call)) if base(call) is not None else None
        if b:
            sub["this"] = b
    return sub


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.nullable = {}   # function id -> kind
        self._kv = {}
        self.inserts = {}
        self.finds = {}
        self._summaries()
        self._inserters()

    def key_vars(self, F, cont):
        """Loop variables of F that range over keys previously collected (into
        local collections) from container `cont`."""
        ck = (id(F), cont)
        if ck in self._kv:
            return self._kv[ck]
        keyed = set()      # locals holding keys of cont (elements or collections of them)
        elems = set()      # loop variables over cont itself
        for _ in range(4):
            for x in F.walk():
                if x.k == "CXXForRangeStmt":
                    v = x.get("var")
                    r = x.get("range")
                    rp = path(r) if isinstance(r, Node) else None
                    if v is None or rp is None:
                        continue
                    if rp == cont:
                        elems.add(v.d)
                    if any(prefix_of(c, rp) for c in keyed):
                        keyed.add(v.d)
                elif x.k == "VarDecl" and isinstance(x.get("init"), Node):
                    if any(path(y) and any(prefix_of(c, path(y)) for c in keyed if c in F.vars)
                           for y in walk(x["init"])):
                        if x.s == "r":
                            keyed.add(x.d)
                elif x.k == "CXXMemberCallExpr" and x.ch[0].k == "MemberExpr" and \
                        x.ch[0].n in ("push_back", "insert", "emplace", "emplace_back") and len(x.ch) > 1:
                    ps = [path(y) for a in x.ch[1:] for y in walk(a)]
                    if any(p and any(p.startswith(e + ".first") for e in elems) for p in ps):
                        for y in walk(base(x)):
                            if y.k == "DeclRefExpr" and y.dk == "Var":
                                keyed.add(y.d)
        self._kv[ck] = keyed
        return keyed

    def _inserters(self):
        """(function, container field, parameter index) of functions that put
        their parameter's key into a member container unconditionally."""
        self.inserts = {}
        for F in self.prog.functions:
            if not F.cls or not F.blocks:
                continue
            for e in F.blocks[F.entry].elems + [x for s in F.blocks[F.entry].succ if s is not None
                                                 and len(F.blocks[F.entry].succ) == 1 for x in F.blocks[s].elems]:
                if e.k == "CXXMemberCallExpr" and e.ch[0].k == "MemberExpr" and e.ch[0].n in ("insert", "emplace", "try_emplace"):
                    b = path(base(e))
                    if b and b.startswith("this."):
                        for i, p in enumerate(F.params):
                            if any(path(y) == p["d"] for a in e.ch[1:2] for y in walk(a)):
                                self.inserts.setdefault(id(F), []).append((b, i))
        self.finds = {}
        for F in self.prog.functions:
            if id(F) not in self.nullable:
                continue
            fs = [x for x in F.walk() if container_find(x)]
            if len(fs) == 1 and (path(base(fs[0])) or "").startswith("this."):
                for i, p in enumerate(F.params):
                    if any(path(y) == p["d"] for y in walk(fs[0].ch[1])):
                        self.finds[id(F)] = (path(base(fs[0])), i)

    def nullable_call(self, n, caller):
        for F in self.prog.callee(n, caller):
            k = self.nullable.get(id(F))
            if k:
                return k
        return None

    def _returns_null(self, F):
        rs = F.d.get("rets")
        kind = None
        if rs == "p":
            kind = "ptr"
        elif F.d.get("ret", "").find("iterator") >= 0:
            kind = "iter"
        elif F.d.get("ret", "").startswith("std::unique_ptr<"):
            kind = "ptr"
        if not kind:
            return None
        la = Lookup(self, F)
        la.run()
        res = []

        def cb(s, n, blk):
            if n.k == "ReturnStmt" and n.ch:
                v = n.ch[0]
                if kind == "ptr" and is_null(v):
                    res.append(n)
                else:
                    o = la.produces(v, s)
                    if o and o[0] == kind:
                        res.append(n)
        la.visit(cb)
        return kind if res else None

    def _summaries(self):
        for _ in range(4):
            ch = False
            for F in self.prog.functions:
                if id(F) in self.nullable:
                    continue
                k = self._returns_null(F)
                if k:
                    self.nullable[id(F)] = k
                    ch = True
            if not ch:
                break

    def check(self, F):
        """-> (n_tracked, n_deref, violations[(node, origin node, text)])"""
        la = Lookup(self, F)
        la.run()
        viol, seen = [], set()
        stats = [0, 0]

        def cb(s, n, blk):
            if container_find(n):
                stats[0] += 1
            elif string_find(n) or is_call(n) and (n.f in NULLABLE_LIB or self.nullable_call(n, F) or
                                 (is_optional_type(n.t) and is_optional_type(n.t) != "std::unique_ptr")):
                stats[0] += 1
            for o, txt, tgt in la.derefs(s, n):
                if n["i"] not in seen:
                    seen.add(n["i"])
                    viol.append((n, F.nodes.get(o[1]), o[0], txt, tgt))
            if (n.k == "MemberExpr" and n.arrow) or (n.k in ("UnaryOperator", "CXXOperatorCallExpr") and n.op in ("*", "->")):
                stats[1] += 1
        la.visit(cb)
        return stats, viol
