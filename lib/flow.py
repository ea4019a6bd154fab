"""Whole-program value flow between storage places (flow-insensitive, field
based): which variables, fields, container elements, parameters and results a
quantity can be copied into.  Places are tuples: a root followed by the parts
of a container/pair that were selected.

Copies propagate forwards only; arithmetic that changes what a number means
(masks, shifts, quotients of two quantities, differences of two addresses)
does not."""
from frontend import Node
from ir import *

TRANSPARENT = ("get", "value", "operator*", "operator->", "release", "front", "back", "begin", "end", "rbegin", "rend",
               "cbegin", "cend", "at", "find", "lower_bound", "upper_bound", "value_or", "top", "base", "data", "equal_range",
               "insert", "emplace", "try_emplace", "push_back", "emplace_back", "insert_or_assign", "operator[]", "operator=",
               "assign", "push", "reset", "emplace_hint", "extract", "swap", "merge", "operator+", "operator++", "operator--",
               "operator+=", "operator-=", "resize")
ELEM = ("*",)
MAPS = ("map<", "btree_map", "hash_map", "unordered_map", "multimap")
WRAP = ("unique_ptr", "shared_ptr", "optional", "StatusOr", "reference_wrapper", "weak_ptr")


def bare(t):
    t = (t or "").strip()
    for _ in range(4):
        t = t.removeprefix("const ").removesuffix(" const").rstrip("&* ").strip()
    return t


def head(t):
    return bare(t).split("<", 1)[0]


def is_iter(t):
    h = bare(t)
    return "terator" in h.split("<")[0] or h.endswith("iterator") or "_iterator" in h.split("<")[0]


def is_map(t):
    h = head(t).split("::")[-1]
    return "map" in h and not is_iter(t) and "<" in (t or "")


def is_pair(t):
    return head(t) in ("std::pair",)


def is_cont(t):
    h = head(t).split("::")[-1]
    return "<" in (t or "") and h in ("vector", "set", "deque", "list", "queue", "stack", "initializer_list", "flat_hash_set",
                                      "node_hash_set", "btree_set", "unordered_set", "multiset", "priority_queue", "Span",
                                      "array", "ArrayRef", "SmallVector", "span", "InlinedVector")


def is_wrap(t):
    return head(t).split("::")[-1] in WRAP


def first_arg(t):
    a = targs(t)
    return a[0] if a else ""


def targs(t):
    """template arguments of a type"""
    if "<" not in t:
        return []
    s = t.split("<", 1)[1]
    out, d, b = [], 0, 0
    for i, c in enumerate(s):
        if c in "<(":
            d += 1
        elif c in ">)":
            if d == 0 and c == ">":
                out.append(s[b:i].strip())
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(s[b:i].strip())
            b = i + 1
    return out


SCALAR = {"int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8,
          "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def bits(s):
    if s and s[0] in "us" and s[1:].isdigit():
        return int(s[1:])
    return None


TEXT = ("std::basic_string<", "std::basic_string_view<", "std::filesystem::path", "std::filesystem::__cxx11::path", "llvm::StringRef",
        "std::string", "std::string_view", "absl::string_view")


def is_text(t):
    return bare(t).startswith(TEXT)


def narrow_int(n):
    """an integer that was narrower than 64 bits before promotion: a step, not an address"""
    b = bits(strip(n).get("s"))
    return b is not None and b < 64


class Flow:
    def __init__(self, prog, skip=lambda F: False, small=80, through=False):
        self.through = through
        self.P = prog
        self.limit = small
        self.edges = {}
        self.width = {}      # place -> (bits, where)
        self.name = {}
        self.at = {}         # (src,dst) -> where
        self.nodes = 0
        self.skip = skip
        self.kinds = {}      # filled by solve()
        self.roots = {}
        bykey = {}
        for F in prog.functions:
            bykey.setdefault(F.key, F)
        self.bykey = bykey
        self.ctors = {}
        for F in prog.functions:
            if F.d.get("ctor") and F.cls:
                self.ctors.setdefault(F.cls, []).append(F)
        self.poly = set()
        self.ctx = {}        # helper being copied for one call -> the call
        self.base = {}       # place of such a copy -> place in the helper
        self.small = {}
        self.trunc = {}
        self.external = []
        self.prods = []
        self.joins = []
        self.cond = []
        self.moved = set()   # places that step on: results of + and targets of +=
        self.asked = []      # (key part of a container, argument, F, node): lookups and subscripts
        self.compared = []   # (place, place, F, node)
        for q, R in prog.records.items():
            for f in R.get("fields", ()):
                self.note(self.fieldp(q + "::" + f["n"]), f.get("s"), "%s:%s" % (R.get("file"), f.get("l")))
                self.notetype(self.fieldp(q + "::" + f["n"]), f.get("t"), "%s:%s" % (R.get("file"), f.get("l")))
        for F in prog.functions:
            if not skip(F):
                self.function(F)

    # ---- places
    def root(self, F):
        k = F.key
        if k in self.ctx:
            return (k, self.ctx[k])
        if k in self.roots:
            return self.roots[k]
        r, seen = F, set()
        while r.parent and r.parent in self.bykey and r.key not in seen:
            seen.add(r.key)
            r = self.bykey[r.parent]
        self.roots[k] = r.key
        return r.key

    def local(self, F, d, n=None):
        p = (("v", self.root(F), d),)
        self.name.setdefault(p[0], "%s (in %s)" % (n or d.split("#")[0], F.q))
        if F.key in self.ctx:
            self.base[p[0]] = ("v", F.key, d)
        return p

    def fieldp(self, q):
        self.name.setdefault(("f", q), q)
        return (("f", q),)

    def ret(self, F):
        p = ("r", F.key) + ((self.ctx[F.key],) if F.key in self.ctx else ())
        self.name.setdefault(p, "result of %s" % F.q)
        if len(p) > 2:
            self.base[p] = p[:2]
        return (p,)

    def note(self, p, s, where):
        b = bits(s)
        if p is not None and b and (p not in self.width or b < self.width[p][0]):
            self.width[p] = (b, where)

    def notetype(self, p, t, where, depth=0):
        """widths of the scalars inside a container type"""
        t = bare(t)
        if p is None or depth > 4:
            return
        if t in SCALAR:
            if depth:
                self.note(p, "u%d" % SCALAR[t], where)
            return
        a = targs(t)
        if not a:
            return
        if is_wrap(t):
            self.notetype(p, a[0], where, depth + 1)
        elif is_pair(t) and len(a) > 1:
            self.notetype(p + ("first",), a[0], where, depth + 1)
            self.notetype(p + ("second",), a[1], where, depth + 1)
        elif is_map(t) and len(a) > 1:
            self.notetype(p + ("*", "first"), a[0], where, depth + 1)
            self.notetype(p + ("*", "second"), a[1], where, depth + 1)
        elif is_cont(t):
            self.notetype(p + ("*",), a[0], where, depth + 1)

    def edge(self, a, b, where, both=False):
        if a is None or b is None or a == b:
            return
        self.edges.setdefault(a, {}).setdefault(b, where)
        if both:
            self.edges.setdefault(b, {}).setdefault(a, where)

    def anon(self, F, n, what):
        p = (("x", F.key, n["i"], F.tu if isinstance(F.tu, str) else "") + ((self.ctx[F.key],) if F.key in self.ctx else ()),)
        self.name.setdefault(p[0], "%s (in %s)" % (what, F.q))
        return p

    def sub(self, p, *parts):
        return None if p is None or len(p) > 7 else p + parts

    # ---- expressions
    def elem(self, n, p):
        """element(s) of the container expression n at place p"""
        return self.sub(p, "*")

    def E(self, F, n):
        """place an expression reads from / refers to, or None"""
        c = self.cache
        k = n["i"] if isinstance(n, Node) and "i" in n else None
        if k is not None and k in c:
            return c[k]
        if k is not None:
            c[k] = None
        p = self._E(F, n)
        if k is not None:
            c[k] = p
        if isinstance(n, Node) and p is not None:
            self.note(p, n.get("s"), F.where(n))
        return p

    def into(self, F, n):
        """like E, for a value stored in a named place: an implicit narrowing
        is that place's"""
        p = self.E(F, n)
        if isinstance(n, Node) and n.k == "ImplicitCastExpr" and n.get("ck") == "IntegralCast" and p in self.trunc:
            q = self.E(F, n.ch[0])
            if q is not None:
                self.edges.get(q, {}).pop(p, None)
                return q
        return p

    def ask(self, p, x, F, n):
        if p is not None and x is not None:
            self.asked.append((p, x, F, n))

    def arith(self, F, n, ps, what):
        ps = [p for p in ps if p is not None]
        if not ps:
            return None
        t = self.anon(F, n, what)
        for p in ps:
            self.edge(p, t, F.where(n))
        self.note(t, n.get("s"), F.where(n))
        return t

    def _E(self, F, n):
        if not isinstance(n, Node):
            return None
        self.nodes += 1
        k = n.k
        ch = n.ch
        if n.get("cv") is not None and k != "DeclRefExpr":
            for x in ch:
                self.E(F, x)
            return None
        if k == "DeclRefExpr":
            if n.get("bind") is not None:
                return self.E(F, n["bind"])
            if n.dk in ("Var", "ParmVar", "Binding", "VarTemplateSpecialization"):
                d = n.get("hold") or n.d
                if n.get("cv") is not None:
                    return None
                if "#" in d:
                    return self.local(F, d, n.n)
                self.name.setdefault(("g", d), d)
                return (("g", d),)
            return None
        if k == "MemberExpr":
            b = self.E(F, ch[0]) if ch else None
            if n.dk != "Field":
                return None
            cls = n.q.rsplit("::", 1)[0]
            if n.n in ("first", "second") and cls.split("<")[0].endswith("pair"):
                return self.sub(b, n.n)
            if any(x in n.q for x in ("(anonymous struct", "(anonymous class", "(anonymous union", "(unnamed")) and b is not None:
                return self.sub(b, n.n)
            if "(anonymous" in n.q and ch:
                return self.fieldp(bare(ch[0].get("t")) + "::" + n.n)
            return self.fieldp(n.q)
        if k == "ArraySubscriptExpr":
            i = self.E(F, ch[1])
            p = self.E(F, ch[0])
            self.ask(self.sub(p, "#"), i, F, n)
            return self.sub(p, "*")
        if k == "UnaryOperator":
            p = self.E(F, ch[0])
            if n.op in ("++", "--") and p is not None:
                self.moved.add(p)
            if n.op in ("*", "&", "+", "++", "--"):
                return p
            if n.op in ("~", "-"):
                return self.arith(F, n, [p], show(n)[:60])
            return None
        if is_cast(n):
            p = self.E(F, ch[0]) if ch else None
            ck = n.ck
            if ck in ("IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "IntegralToPointer", "PointerToBoolean"):
                return None
            if ck == "IntegralCast":
                a, b = bits(ch[0].get("s")), bits(n.get("s"))
                if a and b and b < a:
                    if p is None and (is_call(strip(ch[0])) is False and strip(ch[0]).k != "BinaryOperator"
                                      or strip(ch[0]).get("op") in ("&", ">>", "%", "/")):
                        return None
                    t = self.anon(F, n, "%s converted to %s" % (show(ch[0])[:60], bare(n.t)))
                    self.edge(p, t, F.where(n))
                    self.note(t, n.get("s"), F.where(n))
                    self.trunc[t] = (F, n)
                    return t
            return p
        if k == "CompoundAssignOperator":
            a, b = self.E(F, ch[0]), self.E(F, ch[1])
            if n.op in ("+=", "-=", "|=") and a is not None:
                if n.op == "-=":
                    b = None
                self.note(a, ch[0].get("s"), F.where(n))
                self.edge(b, a, F.where(n))
                self.moved.add(a)
            return a
        if k == "BinaryOperator":
            a, b = self.E(F, ch[0]), self.into(F, ch[1]) if n.op == "=" else self.E(F, ch[1])
            if n.op == "=":
                self.note(a, ch[0].get("s"), F.where(n))
                self.edge(b, a, F.where(n), both="p" == (ch[0].get("s") or "")[:1])
                return a
            if n.op == ",":
                return b
            if n.op in ("==", "!=", "<", ">", "<=", ">=") and a is not None and b is not None:
                self.compared.append((a, b, F, n))
            if n.op == "+":
                p = self.arith(F, n, [a, b], show(n)[:60])
                if any(cval(x) is not None or narrow_int(x) for x in ch):
                    self.moved.add(p)
                return p
            if n.op == "-":
                if cval(ch[1]) is not None:
                    p = self.arith(F, n, [a], show(n)[:60])
                    self.moved.add(p)
                    return p
                return ("-", a, b) and self.difference(F, n, a, b)
            if n.op == "*":
                if a is None or b is None:
                    return self.arith(F, n, [a, b], show(n)[:60])
                t = self.anon(F, n, show(n)[:60])
                self.note(t, n.get("s"), F.where(n))
                self.prods.append((a, b, t, F.where(n)))
                return t
            return None
        if k in ("ConditionalOperator", "BinaryConditionalOperator"):
            self.E(F, ch[0])
            xs = [self.E(F, x) for x in ch[1:]]
            xs = [x for x in xs if x is not None]
            if len(xs) == 1:
                return xs[0]
            if not xs:
                return None
            t = self.anon(F, n, show(n)[:60])
            for x in xs:
                self.edge(x, t, F.where(n), both=bool(n.get("lv")))
            return t
        if k == "LambdaExpr":
            for c in n.get("caps") or []:
                if c.get("init") is not None:
                    x = self.E(F, c["init"])
                    if c.get("d"):
                        self.edge(x, self.local(F, c["d"]), F.where(n), both=True)
            return None
        if k == "InitListExpr":
            xs = [self.E(F, x) for x in ch]
            if n.get("rec"):
                if len(ch) == 1 and bare(ch[0].get("t")) == bare(n.get("t")):
                    return xs[0]
                cls = n["rec"]
                for fn, x, e in zip([f for f in n["fields"]], xs, ch):
                    self.store(F, self.fieldp(cls + "::" + fn), x, e, None)
                return None
            if len(ch) == 1 and bits(n.get("s")):
                return xs[0]
            t = self.anon(F, n, "initializer list")
            for x, e in zip(xs, ch):
                self.edge(x, t + ELEM, F.where(e))
            return t
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(F, n)
        if k == "CXXNewExpr":
            for x in ch:
                self.E(F, x)
            return self.E(F, n["ctor"]) if n.get("ctor") is not None else None
        if k == "CXXStdInitializerListExpr":
            return self.E(F, ch[0]) if ch else None
        if is_call(n):
            return self.call(F, n)
        if k == "CXXDefaultArgExpr":
            return self.E(F, ch[0]) if ch else None
        if k == "DeclStmt":
            for v in ch:
                self.decl(F, v)
            return None
        if k == "CXXForRangeStmt":
            r = self.E(F, n.get("range"))
            v = n.get("var")
            if v is not None:
                vp = self.local(F, v.d, v.n)
                self.note(vp, v.get("s"), F.where(v))
                self.edge(self.sub(r, "*"), vp, F.where(n), both=bool(v.get("ref")))
                self.bindings(F, v, vp)
            for x in ch:
                self.E(F, x)
            return None
        if k == "ReturnStmt":
            p = self.into(F, ch[0]) if ch else None
            if p is not None:
                rp = self.ret(F)
                self.edge(p, rp, F.where(n), both=bool(ch[0].get("lv")) and (F.d.get("ret") or "").rstrip().endswith(("&", "*")))
            return None
        # statements
        if n.get("init") is not None and k in ("IfStmt", "SwitchStmt"):
            self.E(F, n["init"])
        if n.get("cvar") is not None:
            self.decl(F, n["cvar"])
        for x in ch:
            self.E(F, x)
        if k == "VarDecl":
            self.decl(F, n)
        return None

    def difference(self, F, n, a, b):
        """x - y keeps what x is unless y is the same kind of thing; decided
        when kinds are known: recorded as a conditional edge"""
        if a is None:
            return None
        t = self.anon(F, n, show(n)[:60])
        self.note(t, n.get("s"), F.where(n))
        self.cond.append((a, b, t, F.where(n)))
        return t

    def bindings(self, F, v, vp):
        bs = v.get("bindings") or []
        for i, b in enumerate(bs):
            if not b.get("hold"):
                continue
            bp = self.local(F, b["hold"], b["n"])
            self.note(bp, b.get("s"), F.where(v))
            part = ("first", "second")[i] if len(bs) == 2 else "#%d" % i
            self.edge(self.sub(vp, part), bp, F.where(v), both=bool(v.get("ref")))

    def decl(self, F, v):
        if not isinstance(v, Node) or v.k != "VarDecl":
            return
        vp = self.local(F, v.d, v.n)
        self.note(vp, v.get("s"), F.where(v))
        self.notetype(vp, v.get("t"), F.where(v))
        if v.get("init") is not None:
            x = self.into(F, v["init"])
            alias = bool(v.get("ref")) or "terator" in (v.t or "") or (v.get("s") or "")[:1] == "p"
            self.edge(x, vp, F.where(v), both=alias)
        self.bindings(F, v, vp)

    def store(self, F, dst, src, n, s, both=False):
        self.edge(src, dst, F.where(n), both=both)

    def construct(self, F, n):
        ch = n.ch
        xs = [self.E(F, x) for x in ch]
        if n.get("copy") and len(ch) == 1:
            return xs[0]
        tgt = self.P.callee(n, F)
        if tgt:
            for G in tgt:
                self.bind(F, G, ch, xs, n)
            return None
        t = n.t or ""
        if is_pair(t) and len(ch) == 2:
            p = self.anon(F, n, "pair")
            self.edge(xs[0], p + ("first",), F.where(n))
            self.edge(xs[1], p + ("second",), F.where(n))
            return p
        if len(ch) == 1 or ch and is_text(t) and all(x.k == "CXXDefaultArgExpr" for x in ch[1:]):
            return xs[0]       # wrappers, iterators, converting pair constructors
        if is_cont(t) or is_map(t):
            p = self.anon(F, n, bare(t).split("<")[0])
            for x, e in zip(xs, ch):
                if x is None:
                    continue
                if is_iter(e.t) or (e.get("s") or "")[:1] == "p":
                    self.edge(x, p + ELEM, F.where(n))   # range constructor
                elif bits(e.get("s")) and len(ch) == 2 and e is ch[1]:
                    self.edge(x, p + ELEM, F.where(n))
                elif "initializer_list" in (e.t or ""):
                    self.edge(x, p, F.where(n))
            return p
        return None

    def build(self, F, t, a, xs, n):
        cs = [G for G in self.ctors.get(bare(t), ()) if len(G.params) >= len(a)]
        for G in cs:
            self.bind(F, G, a, xs, n)
        return bool(cs)

    def bind(self, F, G, ch, xs, n):
        for p, e, x in zip(G.params, ch, xs):
            pp = self.local(G, p["d"], p["n"])
            self.note(pp, p.get("s"), "%s:%d" % (G.file, G.line))
            t = p.get("t") or ""
            mut = (t.rstrip().endswith(("&", "*")) and not t.startswith("const "))
            if G.key in self.poly:
                continue
            if isinstance(e, Node):
                x = self.into(F, e)
            self.edge(x, pp, F.where(n), both=mut)

    def call(self, F, n):
        a = list(args(n))
        nm = n.get("fn") or ""
        f = n.get("f") or ""
        tgt = self.P.callee(n, F)
        if n.k == "CXXMemberCallExpr":
            b = n.ch[0].ch[0] if n.ch[0] is not None and n.ch[0].k == "MemberExpr" and n.ch[0].ch else None
        else:
            b = None
        bp = self.E(F, b) if b is not None else None
        if tgt:
            ops = a
            if n.k == "CXXOperatorCallExpr" and any(G.cls for G in tgt):
                bp = self.E(F, a[0])
                ops = a[1:]
            xs = [self.E(F, x) for x in ops]
            out = []
            for G in tgt:
                out.append(self.enter(F, G, ops, xs, n) if len(tgt) == 1 else None)
                if out[-1] is None:
                    self.bind(F, G, ops, xs, n)
                    out[-1] = self.ret(G)
            if len(out) == 1:
                return out[0]
            t = self.anon(F, n, show(n)[:60])
            for o in out:
                self.edge(o, t, F.where(n))
            return t
        xs = [self.E(F, x) for x in a]
        w = F.where(n)
        if "scanf" in nm or nm in ("SimpleAtoi", "SimpleHexAtoi", "safe_strtou64", "getAsInteger", "consumeInteger"):
            for y, z in zip(a, xs):
                y = strip(y)
                if z is not None and y.k == "UnaryOperator" and y.op == "&":
                    self.note(z, y.ch[0].get("s"), w)
                    self.external.append((F, n, y.ch[0], z))
                elif z is not None and y is not strip(a[0]):
                    self.external.append((F, n, y, z))
        if nm == "GetReferenceableValue":
            return xs[0] if xs else None
        if nm.startswith("Check_") and nm.endswith("Impl") and len(xs) >= 2:
            self.compared.append((xs[0], xs[1], F, n))
            return None
        if f in ("std::move", "std::forward", "absl::implicit_cast", "std::ref", "std::cref", "std::abs"):
            return xs[0] if xs else None
        if nm in ("max", "min", "clamp") or nm in ("minmax",):
            return self.arith(F, n, xs, show(n)[:60])
        if nm in ("make_unique", "make_shared", "WrapUnique"):
            t = bare(n.t)
            if "<" in t:
                self.build(F, first_arg(t), a, xs, n)
            return None
        if nm in ("make_pair",) and len(xs) == 2:
            p = self.anon(F, n, "pair")
            self.edge(xs[0], p + ("first",), w)
            self.edge(xs[1], p + ("second",), w)
            return p
        if nm in ("accumulate", "c_accumulate"):
            cont = self.sub(xs[0], "*") if nm[0] == "c" else xs[0]
            init = a[1] if nm[0] == "c" else a[2]
            t = self.anon(F, n, "sum of %s" % show(a[0])[:40])
            self.note(t, n.get("s"), w)
            lam = strip(a[-1])
            if lam.k == "LambdaExpr":
                for G in self.P.lambdas.get(lam.get("fk"), []):
                    if len(G.params) == 2:
                        self.edge(cont, self.local(G, G.params[1]["d"], G.params[1]["n"]), w)
                        self.edge(t, self.local(G, G.params[0]["d"], G.params[0]["n"]), w)
                    self.edge(self.ret(G), t, w)
            else:
                self.edge(cont, t, w)
            self.edge(xs[1 if nm[0] == "c" else 2], t, w)
            return t
        if nm == "swap" and len(xs) == 2:
            self.edge(xs[0], xs[1], w, both=True)
            return None
        if nm == "back_inserter" or nm == "toString" and len(xs) == 1:
            return xs[0]
        if nm in ("copy", "c_copy") and len(xs) >= 2:
            self.edge(self.sub(xs[0], "*") if nm[0:2] == "c_" else xs[0], self.sub(xs[-1], "*"), w)
            return None
        if nm in ("find_if", "c_find_if", "c_max_element", "c_min_element", "max_element", "min_element", "c_lower_bound",
                  "c_upper_bound", "lower_bound", "upper_bound", "prev", "next", "find") and b is None and n.k == "CallExpr":
            if xs and xs[0] is not None:
                return xs[0] + ELEM if nm.startswith("c_") else xs[0]
            return None
        if n.k == "CXXOperatorCallExpr":
            op, t0 = n.op, a[0].t or ""
            if op in ("*", "->"):
                return xs[0]
            if op == "[]":
                if xs[0] is None:
                    return None
                if is_map(t0):
                    self.edge(xs[1], xs[0] + ("*", "first"), w)
                    p = xs[0] + ("*", "second")
                else:
                    p = xs[0] + ELEM
                    self.ask(xs[0] + ("#",), xs[1], F, n)
                self.note(p, n.get("s"), w)
                return p
            if op in ("==", "!=", "<", ">", "<=", ">=") and len(xs) == 2 and not is_iter(t0):
                self.compared.append((xs[0], xs[1], F, n))
                return None
            if op == "=" and len(xs) == 2:
                self.edge(xs[1], xs[0], w, both=is_iter(t0))
                return xs[0]
            if op == "++" or op == "--":
                return xs[0]
            if op in ("+", "-", "+=", "-=") and (is_iter(t0)):
                return xs[0]
            if op == "/" and is_text(n.t):       # parts of a path
                t = self.anon(F, n, show(n)[:60])
                self.joins.append((xs[0], xs[1], t, w))
                return t
            if op == "<<" or op == ">>":
                return None
            if op == "()":
                return self.indirect(F, n, a, xs)
            return None
        if b is not None:
            t0 = b.t or ""
            if nm in ("c_str", "str", "data", "string", "native", "operator basic_string_view", "operator StringRef") and not is_cont(t0) \
                    or nm.startswith("operator ") and is_text(t0):
                return bp
            if is_wrap(t0) or is_iter(t0):
                if nm in ("emplace", "reset") and xs:
                    self.edge(xs[0], bp, w)
                if nm in ("get", "value", "value_or", "operator*", "operator->", "release", "base", "emplace"):
                    return bp
                return None
            if (is_map(t0) or is_cont(t0)) and bp is not None and xs and nm in (
                    "at", "find", "count", "contains", "erase", "lower_bound", "upper_bound", "equal_range", "extract"):
                self.ask(bp + ELEM + ("first",) if is_map(t0) else bp + (ELEM if "set" in head(t0) else ("#",)), xs[0], F, n)
            if is_map(t0):
                el = self.sub(bp, "*")
                if el is None:
                    return None
                if nm in ("at",):
                    p = el + ("second",)
                    self.note(p, n.get("s"), w)
                    return p
                if nm in ("find", "begin", "end", "lower_bound", "upper_bound", "rbegin", "rend", "cbegin", "cend"):
                    return el
                if nm == "equal_range":
                    p = self.anon(F, n, "range")
                    self.edge(el, p + ("first",), w, both=True)
                    self.edge(el, p + ("second",), w, both=True)
                    return p
                if nm in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
                    ys = list(zip(a, xs))
                    if nm == "emplace_hint" or (nm == "insert" and len(ys) == 2 and is_iter(a[0].t)
                                                and not is_iter(a[1].t)):
                        ys = ys[1:]
                    if len(ys) == 1:
                        self.edge(ys[0][1], el, w)
                        if "initializer_list" in (ys[0][0].t or ""):
                            self.edge(self.sub(ys[0][1], "*"), el, w)
                    elif len(ys) == 2 and nm == "insert":
                        self.edge(ys[0][1], el, w)
                    elif len(ys) >= 2:
                        self.edge(ys[0][1], el + ("first",), w)
                        for y in ys[1:2]:
                            self.edge(y[1], el + ("second",), w)
                    p = self.anon(F, n, "insertion result")
                    self.edge(el, p + ("first",), w, both=True)
                    return p
                if nm in ("swap", "merge") and xs:
                    self.edge(xs[0], bp, w, both=True)
                return None
            if is_cont(t0):
                el = self.sub(bp, "*")
                if el is None:
                    return None
                if nm in ("emplace_back", "emplace") and self.build(F, first_arg(bare(t0)), a, xs, n):
                    return el
                if nm in ("push_back", "push", "emplace_back", "insert", "emplace", "assign", "resize", "append"):
                    for e, x in zip(a, xs):
                        if is_iter(e.t) and len(a) > 1 and e is a[0] and nm in ("insert", "emplace") and len(a) != 2:
                            continue
                        if nm in ("resize", "assign") and e is a[0] and bits(e.get("s")):
                            continue
                        if len(a) == 1 or is_iter(e.t) or e is a[-1]:
                            if nm == "insert" and len(a) == 2 and is_iter(a[0].t) and not is_iter(a[1].t) and e is a[0]:
                                continue
                            self.edge(x, el, w)
                    if nm in ("emplace_back", "emplace") and len(a) == 2:   # pair elements
                        self.edge(xs[0], el + ("first",), w)
                        self.edge(xs[1], el + ("second",), w)
                    return el
                if nm in ("at", "front", "back", "top"):
                    self.note(el, n.get("s"), w)
                    return el
                if nm in ("find", "begin", "end", "lower_bound", "upper_bound", "rbegin", "rend", "cbegin", "cend", "data"):
                    return el
                if nm in ("swap",) and xs:
                    self.edge(xs[0], bp, w, both=True)
                return None
            if is_pair(t0) and nm == "swap":
                self.edge(xs[0], bp, w, both=True)
        if b is not None and len(a) == 1 and nm.startswith("set_") and not f.startswith(("std::", "absl::")):
            q = f.rsplit("::", 1)[0] + "::" + nm[4:]         # a member of a message
            self.name.setdefault(("e", q), q + "()")
            self.edge(xs[0], (("e", q),), w)
            return bp
        if b is not None and not a and f and not f.startswith(("std::", "absl::")) and \
                (bits(n.get("s")) or "string" in (n.t or "").lower()):
            self.name.setdefault(("e", f), f + "()")
            if self.through and bp is not None and bits(n.get("s")) and not is_text(b.t) and nm not in ("size", "empty", "length"):
                return self.arith(F, n, [bp, (("e", f),)], show(n)[:60])     # a part of something known
            return (("e", f),)
        if nm == "get" and xs and is_pair(a[0].t):
            t = n.ch[0].get("t") or ""
            return self.sub(xs[0], "first") if "get<0" in (n.get("fk") or "") else None
        return None

    def indirect(self, F, n, a, xs):
        f = strip(a[0])
        # a call of a lambda held by a local variable
        if f.k == "DeclRefExpr":
            v = F.vars.get(f.d)
            lam = strip(v["init"]) if v is not None and v.get("init") is not None else None
            if isinstance(lam, Node) and lam.k == "LambdaExpr":
                for G in self.P.lambdas.get(lam.get("fk"), []):
                    self.bind(F, G, a[1:], xs[1:], n)
                    return self.ret(G)
            if self.through and len(xs) == 2 and xs[1] is not None and bits(n.get("s")):
                return self.arith(F, n, xs[1:], show(n)[:60])     # a translation of its argument
        return None

    def enter(self, F, G, ch, xs, n):
        """a small helper is followed separately for each of its calls:
        the result place, or None if G is not such a helper"""
        if G.key not in self.small:
            ok = G.body is not None and not G.parent and not G.d.get("ctor") and not self.skip(G)
            if ok:
                c = 0
                for x in G.walk():
                    c += 1
                    if c > self.limit or x.k == "LambdaExpr":
                        ok = False
                        break
            self.small[G.key] = ok
        if not self.small[G.key] or G.key in self.ctx or len(self.ctx) > 3:
            return None
        me = self.ctx.get(F.key)
        cache = self.cache
        xs = [self.into(F, e) if isinstance(e, Node) else x for e, x in zip(ch, xs)]
        self.ctx[G.key] = (F.key, n["i"], F.tu) + ((me,) if me else ())
        try:
            for p, e, x in zip(G.params, ch, xs):
                pp = self.local(G, p["d"], p["n"])
                self.note(pp, p.get("s"), "%s:%d" % (G.file, G.line))
                t = p.get("t") or ""
                if x is not None and G.key not in self.poly:
                    self.edge(x, pp, F.where(n), both=t.rstrip().endswith(("&", "*")) and not t.startswith("const "))
            self.function(G)
            return self.ret(G)
        finally:
            del self.ctx[G.key]
            self.cache = cache

    def at_all(self, K, p):
        """the kinds at a place of a function, over all its copies"""
        r = set(K.get(p, ()))
        for c in self.copies_of(p[0]):
            r |= set(K.get((c,) + p[1:], ()))
        return r

    def copies_of(self, p0):
        if not hasattr(self, "_inv") or self._inv[0] != len(self.base):
            inv = {}
            for c, b in self.base.items():
                inv.setdefault(b, []).append(c)
            self._inv = (len(self.base), inv)
        return self._inv[1].get(p0, ())

    def function(self, F):
        self.cache = {}
        for p in F.params:
            if p.get("d"):
                self.note(self.local(F, p["d"], p["n"]), p.get("s"), F.where())
                self.notetype(self.local(F, p["d"], p["n"]), p.get("t"), F.where())
        for i in F.inits:
            x = self.E(F, i.get("init"))
            q = i.get("q") or i.get("f")
            m = i.get("q")
            if m:
                fp = self.fieldp(m)
                self.edge(x, fp, F.where(i))
        rs = F.d.get("rets")
        if rs:
            self.note(self.ret(F), rs, F.where())
        self.notetype(self.ret(F), F.d.get("ret"), F.where())
        self.E(F, F.body)

    # ---- propagation
    def solve(self, seeds, narrow=64, wide=None, blocked={}, translate=()):
        """seeds: [(place, kind, why)].  Kinds stop at places narrower than
        `narrow` bits.  Returns {place: {kind: (from place, where)}}."""
        K = {}
        work = []

        def add(p, k, frm, where):
            r = (self.base.get(p[0], p[0]),)
            if len(p) > 8 or r in blocked and (blocked[r] is None or k in blocked[r]):
                return
            d = K.setdefault(p, {})
            if k in d:
                return
            d[k] = (frm, where)
            self.order[p, k] = len(self.order)
            work.append((p, k))
        self.order = {}
        for p, k, why in seeds:
            add(p, k, None, why)
        conds = list(self.cond)
        done = False
        while True:
            while work:
                p, k = work.pop()
                w = self.width.get(p)
                if w and w[0] < narrow and (wide is None or k in wide):
                    continue
                for i in range(1, len(p) + 1):
                    for b, where in self.edges.get(p[:i], {}).items():
                        add(b + p[i:], k, p, where)
            # a count of executions times a number stays a count
            for a, b, t, where in self.prods:
                for x in (a, b):
                    if "execution count" in K.get(x, {}):
                        add(t, "execution count", x, where)
            # two parts of the same kind make a whole of that kind
            for a, b, t, where in self.joins:
                for k in K.get(a, ()):
                    if k in K.get(b, ()):
                        add(t, k, a, where)
            # differences: a - b is of a's kind unless b is of the same kind
            for a, b, t, where in conds:
                for k in list(K.get(a, {})):
                    if k in translate and not K.get(b):
                        add(t, k, a, where)      # an address relative to something else
                        continue
                    if wide is not None and k not in wide or "address" in k and b is not None:
                        continue
                    add(t, k, a, where)
            if not work:
                break
        return K

    def meeting(self, K, p):
        """several kinds meet at p for the first time (not at one of the places they came from)"""
        d = K[p]
        for k, (q, _) in d.items():
            if q is None:
                continue
            for k2 in K.get(q, ()):
                if k2 != k and k2 in d and self.order[q, k2] < self.order[p, k2]:
                    return False
        return len(d) > 1

    def reach(self, p, blocked=()):
        """places a value at p can be copied to: (place, from, where)"""
        seen, work = {p}, [p]
        while work:
            x = work.pop()
            for i in range(1, len(x) + 1):
                for b, where in self.edges.get(x[:i], {}).items():
                    q = b + x[i:]
                    if len(q) > 8 or q in seen or (self.base.get(q[0], q[0]),) in blocked:
                        continue
                    seen.add(q)
                    yield q, x, where
                    w = self.width.get(q)
                    work.append(q)
