"""A failure to open, read, parse, map, create or write is never reported as success."""
import re
from core import Result
from frontend import Node, walk
from ir import *
from wire import Wire
from paths import paths as wpaths

# Library operations and how they signal failure.
PRIM = {
    "open": "neg", "close": "neg", "stat": "neg", "fstat": "neg", "lstat": "neg", "fclose": "neg", "fflush": "neg",
    "fopen": "null", "fdopen": "null", "mmap": "mapfailed",
    "pread": "count", "read": "count", "fread": "count", "write": "count", "pwrite": "count", "fwrite": "count",
    "fscanf": "count", "sscanf": "count",
    "fputs": "neg", "fputc": "neg", "rename": "neg", "unlink": "neg", "ftruncate": "neg",
}
LIBBOOL = {"ReadFile", "ReadFromPointer", "ReadFromString", "ReadFromHandle", "ReadFileInSections", "ParseRawEvents", "ParseFromString",
           "ParseFromArray", "ParseFromIstream", "ParseFromFileDescriptor", "SerializeToOstream",
           "SerializeToString", "SerializeToFileDescriptor", "WriteFile", "ParseFile", "ParseFromZeroCopyStream",
           "ParseFromCodedStream", "ParseDelimitedFromZeroCopyStream", "ParsePerfFile"}
STREAM = re.compile(r"(?:^|[ :])(?:basic_)?(?:o|i)?fstream\b|raw_fd_ostream")
WRAP = ("absl::StatusOr<", "llvm::Expected<", "llvm::ErrorOr<")


def tname(t):
    t = (t or "").replace("const ", "").replace("class ", "").strip()
    return t.rstrip("&* ").strip()


def tkind(t):
    """Failure convention of a value by its type alone."""
    t = tname(t)
    if t == "absl::Status" or t.startswith(WRAP[0]):
        return "status"
    if t.startswith(WRAP[1:]):
        return "bool"
    if t in ("std::error_code", "llvm::Error"):
        return "err"
    return None


def is_stream(t):
    return bool(STREAM.search(t or ""))


class Fail(Dataflow):
    """state: vals path->sources; may / must: sources known to have failed;
    at: source -> failures already definite when it was attempted; lit: path -> literals"""

    def __init__(self, an, F):
        super().__init__(F)
        self.an = an
        self.locals = set(F.vars) | {q["d"] for q in F.params}
        self.declared = {v.d for b in F.blocks.values() for e in b.elems if e.k == "DeclStmt" for v in e.ch if v.k == "VarDecl"}

    def exit(self):
        return next((b for b, k in self.fn.blocks.items() if not k.succ and not k.elems), 0)

    def initial(self):
        return {"vals": {}, "may": frozenset(), "must": frozenset(), "at": {}, "lit": {},
                "bad": False, "noted": False, "dirty": frozenset(), "flushed": frozenset(),
                "fresh": frozenset(), "pend": frozenset(), "eof": frozenset()}

    def copy(self, s):
        return {"vals": dict(s["vals"]), "may": s["may"], "must": s["must"], "at": dict(s["at"]), "lit": dict(s["lit"]),
                "bad": s["bad"], "noted": s["noted"], "dirty": s["dirty"], "flushed": s["flushed"],
                "fresh": s["fresh"], "pend": s["pend"], "eof": s["eof"]}

    def join(self, a, b):
        for f in ("vals", "lit"):
            for k, v in b[f].items():
                a[f][k] = a[f].get(k, frozenset()) | v
        for k, v in b["at"].items():
            a["at"][k] = a["at"][k] & v if k in a["at"] else v
        a["noted"] = (a["noted"] or not a["may"]) and (b["noted"] or not b["may"]) if a["may"] or b["may"] else False
        a["may"] = a["may"] | b["may"]
        a["must"] = a["must"] & b["must"]
        a["bad"] = a["bad"] and b["bad"]
        a["dirty"] = a["dirty"] | b["dirty"]
        a["flushed"] = a["flushed"] & b["flushed"]
        a["fresh"] = a["fresh"] & b["fresh"]
        a["pend"] = a["pend"] | b["pend"]
        a["eof"] = a["eof"] & b["eof"]
        return a

    # ---- sources
    def kind_of(self, n):
        return self.an.kind(n, self.fn)

    def sources(self, n, s):
        """-> set of (source id, kind) the value of n may come from."""
        n = strip(n)
        if not isinstance(n, Node):
            return frozenset()
        while True:
            if n.op == "*" and n.k in ("UnaryOperator", "CXXOperatorCallExpr") or n.k == "CXXMemberCallExpr" and \
                    n.ch[0].k == "MemberExpr" and (n.ch[0].n in ("value", "operator*", "value_or", "release")):
                return frozenset()      # the content, not the outcome
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr",
                       "MaterializeTemporaryExpr", "ExprWithCleanups") and len(n.ch) == 1:
                n = strip(n.ch[0])
            elif n.k == "CallExpr" and n.f in ("std::move", "std::forward", "__builtin_expect") and len(n.ch) >= 2:
                n = strip(n.ch[1])
            elif n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n in ("get", "getError", "takeError", "status"):
                b = n.ch[0].ch[0]
                inner = self.sources(b, s)
                if n.ch[0].n in ("getError", "takeError"):
                    return frozenset((i, "err") for i, k in inner)
                if n.ch[0].n == "status":
                    return frozenset((i, "status") for i, k in inner)
                if inner:
                    return inner
                break
            elif n.k == "BinaryOperator" and n.op == "=":
                n = strip(n.ch[1])
            elif n.k == "ParenExpr":
                n = strip(n.ch[0])
            else:
                break
            if not isinstance(n, Node):
                return frozenset()
        if is_call(n):
            k = self.kind_of(n)
            if k:
                return frozenset([(n["i"], k)])
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            return self.sources(n.ch[0], s) | self.sources(n.ch[1], s)
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", "<=", ">", ">=") or n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") or \
                n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].ch and \
                (n.ch[0].n in ("ok", "good", "is_open", "has_value", "fail", "bad", "has_error") or n.ch[0].n.startswith("operator bool")):
            v = self.verdict(n, True, s)
            return frozenset((i, "err" if v[1] else "bool") for i, k in v[0]) if v else frozenset()
        if n.k in ("UnaryOperator", "CXXOperatorCallExpr") and n.op == "!":
            flip = {"bool": "err", "null": "err", "stream": "err", "err": "bool", "neg": "bool"}
            return frozenset((i, flip[k]) for i, k in self.sources(n.ch[-1], s) if k in flip)
        if n.k == "ConditionalOperator":
            return self.sources(n.ch[1], s) | self.sources(n.ch[2], s)
        p = path(n)
        if p is not None:
            if p in s["vals"]:
                return s["vals"][p]
            v = self.fn.vars.get(p)
            if v is not None and p not in self.declared and isinstance(v.get("init"), Node):
                return self.sources(v["init"], s)       # variable declared in a condition
            if is_stream(n.t):
                return frozenset([("stream " + p, "stream")])
        return frozenset()

    # ---- transfer
    def assign(self, s, p, v):
        src = self.sources(v, s)
        old = s["vals"].pop(p, frozenset())
        ids = {i for i, k in old}
        for q, w in s["vals"].items():
            ids -= {i for i, k in w}
        new = {i for i, k in src}
        drop = ids - new
        if drop and src:
            # the attempt is repeated with another source: only the last counts
            s["may"] -= drop
        if src:
            s["vals"][p] = src
        s["lit"].pop(p, None)
        vp = path(v)
        s["fresh"] -= {p}
        if vp in self.an.latches:
            s["fresh"] |= {p}
        if p.split(".")[0] not in self.locals and s["bad"]:
            s["noted"] = True
            s["fresh"] = frozenset()
            if any(isinstance(i, int) and self.an.is_output(self.fn, i) for i in s["may"]):
                self.an.latches.setdefault(p, self.fn.where(v))
        c = cval(v)
        if c is not None:
            s["lit"][p] = frozenset([c])

    def stream(self, n):
        """path of the output file object n denotes"""
        n = strip(n)
        while isinstance(n, Node) and is_call(n) and (n.op == "<<" or (n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and
                                                                       n.ch[0].n in ("write", "put", "flush") and n.ch[0].ch)):
            n = strip(n.ch[1] if n.k != "CXXMemberCallExpr" else n.ch[0].ch[0])
        p = path(n) if isinstance(n, Node) else None
        return p if p in self.an.outputs(self.fn) else None

    def output(self, s, n):
        nm = (n.f or "").rsplit("::", 1)[-1]
        if n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].ch:
            p = self.stream(n.ch[0].ch[0])
            if p:
                m = n.ch[0].n
                if m in ("close", "flush"):
                    s["flushed"] |= {p}
                elif m in ("write", "put", "open", "seekp"):
                    s["dirty"] |= {p}
                    s["flushed"] -= {p}
        elif n.k == "CXXOperatorCallExpr" and n.op == "<<" and len(n.ch) == 3:
            p = self.stream(n.ch[1])
            if p:
                s["dirty"] |= {p}
                s["flushed"] -= {p}
                m = strip(n.ch[2])
                if isinstance(m, Node) and m.n in ("flush", "endl"):
                    s["flushed"] |= {p}
            return
        elif n.k == "CXXOperatorCallExpr":
            return
        for x in args(n):
            p = self.stream(x)
            if not p:
                continue
            if nm in ("fclose", "fflush"):
                if not discarded(n):
                    s["dirty"] -= {p}
            elif nm not in ("ferror", "clearerr", "fileno", "setbuf", "CheckNotNull", "move"):
                s["dirty"] |= {p}
                s["flushed"] -= {p}

    def settle(self, s, n):
        """values handed on to someone else are that code's business"""
        if not s["pend"]:
            return
        if n.k in ("ReturnStmt", "CXXConstructExpr", "CXXNewExpr", "LambdaExpr", "InitListExpr") or is_call(n):
            for x in (n.ch if not is_call(n) else list(args(n)) + ([n.ch[0].ch[0]] if n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].ch else [])):
                if isinstance(x, Node):
                    s["pend"] -= {i for i, k in self.sources(x, s)}

    def transfer(self, s, n):
        self.settle(s, n)
        if is_call(n):
            self.output(s, n)
        if is_call(n) and self.kind_of(n):
            i = n["i"]
            s["may"] -= {i}
            s["must"] -= {i}
            s["eof"] -= {i}
            s["at"][i] = s["must"]
            s["pend"] |= {i}
        if n.k == "DeclStmt":
            for v in n.ch:
                if v.k == "VarDecl" and isinstance(v.get("init"), Node):
                    self.assign(s, v.d, v["init"])
        elif n.k == "VarDecl" and isinstance(n.get("init"), Node):
            self.assign(s, n.d, n["init"])
        elif n.k == "BinaryOperator" and n.op == "=":
            p = path(n.ch[0])
            if p:
                self.assign(s, p, n.ch[1])
        elif n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.ch) == 3:
            p = path(n.ch[1])
            if p:
                self.assign(s, p, n.ch[2])

    # ---- branches
    def verdict(self, n, pol, s):
        """-> (sources, failed?) decided by the atom, or None"""
        n = strip(n)
        if not isinstance(n, Node):
            return None
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", "<=", ">", ">="):
            for a, b, op in ((n.ch[0], n.ch[1], n.op), (n.ch[1], n.ch[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n.op, n.op))):
                src = self.sources(a, s)
                if not src:
                    continue
                kind = {k for i, k in src}
                if len(kind) != 1:
                    return None
                kind = kind.pop()
                c = cval(b)
                sb = strip(b)
                if kind == "null" and (c == 0 or (isinstance(sb, Node) and sb.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"))):
                    return src, (op == "==") == pol
                if kind == "mapfailed" and op in ("==", "!="):
                    return src, (op == "==") == pol
                if kind == "count" and (c is None or c > 0):
                    if op in ("==", "!="):
                        return src, (op == "!=") == pol
                    if op in ("<", ">="):
                        return src, (op == "<") == pol
                if kind == "neg" and c is not None:
                    ev = lambda v: {"==": v == c, "!=": v != c, "<": v < c, "<=": v <= c, ">": v > c, ">=": v >= c}[op]
                    good = 0 if kind == "neg" else 5
                    if ev(-1) != ev(good):
                        return src, ev(-1) == pol
                if kind in ("bool",) and c in (0, 1) and op in ("==", "!="):
                    return src, ((op == "==") == pol) == (c == 0)
                return None
            return None
        if n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") and len(n.ch) == 3:
            for a, b in ((n.ch[1], n.ch[2]), (n.ch[2], n.ch[1])):
                src = self.sources(a, s)
                sb = strip(b)
                if src and isinstance(sb, Node) and sb.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                    return src, (n.op == "==") == pol
                if src and {k for i, k in src} == {"err"} and isinstance(sb, Node) and \
                        (any(x.n in ("success", "success_code") for x in walk(sb)) or sb.k == "CXXConstructExpr" and not sb.ch):
                    return src, (n.op == "!=") == pol
            return None
        if n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].ch:
            m, b = n.ch[0].n, n.ch[0].ch[0]
            if m in ("ok", "good", "is_open", "has_value") or m.startswith("operator bool"):
                src = self.sources(b, s)
                if src:
                    err = {k for i, k in src} == {"err"}
                    return src, (not pol) != err
                return None
            if m in ("fail", "bad", "has_error"):
                src = self.sources(b, s)
                return (src, pol) if src else None
        if n.k in ("BinaryOperator", "CXXMemberCallExpr") and not (is_call(n) and self.kind_of(n)) and n.op not in ("=", "&&", "||"):
            return None
        src = self.sources(n, s)
        if not src:
            return None
        kinds = {k for i, k in src}
        if kinds <= {"bool", "null", "stream"}:
            return src, not pol
        if kinds == {"err"}:
            return src, pol
        if kinds == {"neg"}:
            return src, pol       # if (close(fd))
        return None

    def refine(self, s, cond, taken, blk):
        c = strip(cond)
        while isinstance(c, Node) and c.k == "BinaryOperator" and c.op in ("&&", "||"):
            cond = c.ch[1]          # the left operand was decided by an earlier block
            c = strip(cond)
        return self.decide(s, cond, taken)

    def decide(self, s, cond, taken):
        for n, pol in cond_atoms(cond, taken):
            if n.k == "BinaryOperator" and n.op == ("||" if pol else "&&"):
                x = self.decide(self.copy(s), n.ch[0], pol)
                y = self.decide(self.copy(s), n.ch[1], pol)
                s = x if y is None else y if x is None else self.join(x, y)
                if s is None:
                    return None
                continue
            if pol and n.k == "CXXMemberCallExpr" and n.ch[0].k == "MemberExpr" and n.ch[0].n == "empty" and n.ch[0].ch:
                # no file name: no output was asked for
                q = path(n.ch[0].ch[0])
                for p, d in self.an.outputs(self.fn).items():
                    i = strip(d.get("init"))
                    if q and isinstance(i, Node) and any(path(x) == q for x in i.ch if isinstance(x, Node)):
                        s["dirty"] -= {p}
            # scanf says "nothing left" with EOF, for which the stream then vouches
            if n.k == "BinaryOperator" and n.op in ("==", "!="):
                for a, b in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
                    src = self.sources(a, s)
                    if src and {k for i, k in src} == {"count"} and cval(b) == -1 and (n.op == "==") == pol:
                        s["eof"] |= {i for i, k in src}
            if is_call(n) and (n.f or "").rsplit("::", 1)[-1] == ("feof" if pol else "ferror") and s["eof"]:
                s["pend"] -= s["eof"]
                s["may"] -= s["eof"]
                s["must"] -= s["eof"]
            v = self.verdict(n, pol, s)
            if v is None:
                continue
            ids = {i for i, k in v[0]}
            s["pend"] -= ids
            if v[1]:
                s["may"] |= ids
                s["must"] |= ids
                s["bad"] = True
            else:
                if len(ids) == 1:
                    i = next(iter(ids))
                    if i in s["must"]:
                        return None
                    s["may"] -= s["at"].get(i, frozenset())
                s["may"] -= ids
                s["must"] -= ids
                s["bad"] = s["bad"] and bool(s["must"])
                for i in ids:
                    if isinstance(i, str):
                        p = i[7:]
                        if p in s["flushed"]:
                            s["dirty"] -= {p}
        return s


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.fallible = {}   # id(F) -> kind
        self._outs = {}
        self.latches = {}  # places where a failed output operation is recorded
        self.memo = {}
        self._summaries()

    def outputs(self, F):
        """paths of files F opens for writing"""
        if id(F) not in self._outs:
            o = {}
            for x in F.walk():
                if x.k == "VarDecl" and x.s != "p" and is_stream(x.t) and "ifstream" not in (x.t or "") and not x.ref:
                    o[x.d] = x
                elif x.k == "CallExpr" and x.f in ("fopen", "fdopen"):
                    y = x.parent
                    while y is not None and (is_cast(y) or y.k in ("ParenExpr", "ExprWithCleanups", "ConditionalOperator")):
                        y = y.parent
                    q = y.d if y is not None and y.k == "VarDecl" else path(y.ch[0]) if y is not None and y.k == "BinaryOperator" and y.op == "=" else None
                    if q in F.vars and can_write(x):
                        o[q] = x
            self._outs[id(F)] = o
        return self._outs[id(F)]

    def is_output(self, F, i):
        n = F.nodes.get(i)
        return n is not None and n.k == "CallExpr" and (n.f in ("fwrite", "fputs", "fputc", "pwrite") or
                                                        n.f in CLOSERS and write_mode(F, n) is not False)

    def kind(self, n, F):
        key = (n["i"], id(F))
        if key in self.memo:
            return self.memo[key]
        k = self._kind(n, F)
        self.memo[key] = k
        return k

    def _kind(self, n, F):
        if n.k not in ("CallExpr", "CXXMemberCallExpr"):
            return None
        t = tkind(n.t)
        if t:
            return None if (n.f or "").rsplit("::", 1)[-1] in ("status", "getError", "OkStatus", "move", "value", "get") else t
        cs = self.prog.callee(n, F)
        if cs:
            ks = {self.fallible.get(id(c)) for c in cs}
            return ks.pop() if len(ks) == 1 else next((k for k in ks if k), None)
        nm = n.f or (n.ch[0].n if n.ch and n.ch[0].k == "MemberExpr" else "") or ""
        last = nm.rsplit("::", 1)[-1]
        if "::" not in nm and nm in PRIM:
            return PRIM[nm]
        if nm.endswith(("TextFormat::Print", "TextFormat::Parse", "FileOutputStream::Close", "FileOutputStream::Flush")):
            return "bool"
        if last in LIBBOOL and tname(n.t) == "bool":
            return "bool"
        return None

    def channel(self, F):
        r = tname(F.d.get("ret"))
        raw = F.d.get("ret") or ""
        if r == "bool" and "&" not in raw and "*" not in raw:
            return "bool"
        k = tkind(raw)
        if k:
            return k
        if raw.startswith("std::unique_ptr<") or F.d.get("rets") == "p":
            return "null"
        if r == "int" and F.name == "main":
            return "exit"
        return None

    def outcome(self, fl, s, v, ch):
        """'ok' | 'fail' | 'other' of a returned expression."""
        v0 = v
        v = strip(v)
        src = fl.sources(v0, s)
        if src:
            ids = {i for i, k in src}
            return "fail" if ids & s["may"] and (ids <= s["must"] or s["bad"]) else "other"
        c = cval(v) if isinstance(v, Node) else None
        if c is None and isinstance(v, Node):
            p = path(v)
            if p in s["lit"]:
                ls = s["lit"][p]
                if ch == "bool" or ch == "exit":
                    good = 1 if ch == "bool" else 0
                    return "ok" if any((x != 0) == bool(good) for x in ls) else "fail"
        if ch == "bool":
            return "other" if c is None else "ok" if c else "fail"
        if ch == "exit":
            return "other" if c is None else "fail" if c else "ok"
        if ch == "null":
            for x in walk(v):
                if x.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                    return "fail"
            if c == 0:
                return "fail"
            return "ok" if isinstance(v, Node) and any(x.k == "CXXNewExpr" or (is_call(x) and "make_unique" in (x.f or "")) for x in walk(v)) else "other"
        if ch == "err":
            return "other"
        if ch == "status":
            if isinstance(v, Node):
                for x in walk(v):
                    if is_call(x):
                        m = (x.f or "").rsplit("::", 1)[-1]
                        if m == "OkStatus":
                            return "ok"
                        if m.endswith("Error") or m == "status" or tname(x.t) == "absl::Status":
                            return "fail"
                    if x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and tname(x.t) == "absl::Status":
                        return "fail" if x.ch else "ok"
                if (F_ret(fl.fn).startswith(WRAP[0])):
                    return "ok"
            return "other"
        return "other"

    def returns(self, F, ch):
        """[(node, outcome, may, fl)]"""
        fl = Fail(self, F)
        fl.run()
        out = []
        self.pending = []

        def cb(s, n, blk):
            if n.k == "ReturnStmt" and n.ch:
                fl.settle(s, n)
                if self.outcome(fl, s, n.ch[0], ch) == "ok":
                    self.pending += [(n, i) for i in s["pend"]]
                out.append((n, self.outcome(fl, s, n.ch[0], ch), s["may"], s["bad"]))
        fl.visit(cb)
        return out

    def constants(self, F):
        """integer function: (constants returned after a definite failure, constants returned without any)"""
        fl = Fail(self, F)
        fl.run()
        bad, good, latched = {}, {}, []

        def cb(s, n, blk):
            if n.k != "ReturnStmt" or not n.ch:
                return
            c = cval(n.ch[0])
            p = path(n.ch[0])
            cs = [c] if c is not None else [] if p in self.latches else list(s["lit"].get(p, ()))
            for x in cs:
                if s["bad"]:
                    bad[x] = n
                elif not s["may"]:
                    good[x] = n
            if not cs and (p in self.latches or p in s["fresh"]):
                latched.append(n)
        fl.visit(cb)
        return bad, good, latched

    def int_kind(self, F):
        bad, good, latched = self.constants(F)
        if latched:
            return "neg"
        if bad and good and not set(bad) & set(good):
            return "bool" if set(bad) == {0} else "neg"
        return None

    def _summaries(self):
        cand = [F for F in self.prog.functions if F.blocks and self.channel(F) in ("bool", "null")]
        ints = [F for F in self.prog.functions if F.blocks and self.channel(F) is None and tname(F.d.get("ret")) == "int"]
        void = [F for F in self.prog.functions if F.blocks and self.channel(F) is None and F not in ints]
        for F in void:
            if any(x.k == "CallExpr" and x.f in PRIM for x in F.walk()):
                Fail(self, F).run()
        for _ in range(6):
            self.memo = {}
            ch = False
            for F in cand:
                if id(F) in self.fallible:
                    continue
                k = self.channel(F)
                for n, o, may, must in self.returns(F, k):
                    src = Fail(self, F).sources(n.ch[0], {"vals": {}, "lit": {}})
                    if (o == "fail" and must) or any(True for i, kk in src if kk == k):
                        self.fallible[id(F)] = k
                        ch = True
                        break
            for F in ints:
                if id(F) in self.fallible:
                    continue
                k = self.int_kind(F)
                if k:
                    self.fallible[id(F)] = k
                    ch = True
            if not ch:
                break
        self.memo = {}


def F_ret(F):
    return tname(F.d.get("ret"))


def discarded(n):
    q, p = n, n.parent
    while p is not None and p.k in ("ExprWithCleanups", "ImplicitCastExpr", "ParenExpr", "CXXBindTemporaryExpr",
                                    "MaterializeTemporaryExpr", "CStyleCastExpr", "CXXStaticCastExpr"):
        q, p = p, p.parent
    if p is None:
        return False
    if p.k == "CompoundStmt":
        return True
    if p.k == "BinaryOperator" and p.op == ",":
        return q is p.ch[0] or discarded(p)
    if p.k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CaseStmt", "DefaultStmt", "CXXForRangeStmt"):
        return q in [x for x in p.ch[1:] if isinstance(x, Node)] and not (p.get("cond") is q)
    return False


# Attempts whose failure is designed to be survivable, by what is attempted.
OPTIONAL = {
    "CreateDWARFContext": "module names are an optional enrichment of a layout; their absence is warned about",
    "GetCompileUnitFileNameForCodeAddress": "a function without a known module is written without one",
    "BuildPerfDataReader": "an input profile that does not match the binary is skipped with a warning; having none left is an error",
    "DisassembleOne": "the statistics count instructions that cannot be disassembled",
    "GetPid": "a trace record without a known process is not part of the profile",
    "GetSectionByName": "null means the file has no such section",
    "GetSectionInfoByName": "null means the file has no such section",
    "GetSectionByIndex": "null means the file has no such section",
    "GetSectionName": "null means there is no such section",
}
CLOSERS = ("fclose", "close")


def optional(n):
    nm = (n.f or "").rsplit("::", 1)[-1]
    if nm in OPTIONAL:
        return True
    # an unreadable program header table leaves sections usable (documented in place)
    return nm == "pread" and len(n.ch) > 2 and "Phdr" in ((strip(n.ch[2]) or {}).get("t") or "")


def can_write(x):
    m = args(x)[1]
    if x.f == "open":
        c = cval(m)
        return c is None or bool(c & 3)
    lits = [z.get("str") for z in walk(m) if z.k == "StringLiteral"]
    return not lits or any(any(ch in str(l) for ch in "wa+") for l in lits)


def write_mode(F, n):
    """n = fclose/close(x): is x possibly open for writing in F?"""
    a = args(n)
    p = path(a[0]) if a else None
    modes = []
    for x in F.walk():
        if x.k == "CallExpr" and x.f in ("fopen", "fdopen", "open"):
            y = x.parent
            while y is not None and (is_cast(y) or y.k in ("ParenExpr", "ExprWithCleanups", "ConditionalOperator")):
                y = y.parent
            q = y.d if y is not None and y.k == "VarDecl" else path(y.ch[0]) if y is not None and y.k == "BinaryOperator" and y.op == "=" else None
            if q != p:
                continue
            modes.append(can_write(x))
    return any(modes) or not modes and n.f == "fclose"


INPUTS = ("fopen", "open", "fread", "read", "pread", "fscanf", "fgets", "getline")


def short_reads(prog, a, r):
    """what a read cut short by the end of the file leaves behind is a failure the closing call reports"""
    fields = {re.split(r"\.|->", l)[-1] for l in a.latches}
    for F in prog.functions:
        if F.body is None or "*" not in str(F.d.get("ret")):
            continue
        if not any(is_call(n) and n.f == "fread" for n in F.walk()):
            continue
        w = Wire(prog, {})
        w.rets = True
        for p in wpaths(w.run(F), lambda t: None):
            rd = [e for e in p.effects if e[0] == 'sink' and e[1] == "fread"]
            if not rd or p.ret != ('k', 0):
                continue
            r.count(short_reads=1)
            if not any(e[0] == 'set' and e[1][0] == 'm' and e[1][2] in fields and e[2] != ('k', 0) for e in p.effects):
                r.add("%s|short read" % F.q, F.where(rd[-1][4]), "%s: that the file ends before what was asked for is not recorded where the closing call reports it" % F.q)


def check(prog, tier):
    r = Result("typestate over every function's CFG: the outcome of every operation that can fail (opening, mapping, "
               "reading, decoding, creating, writing, closing an output) is tracked from the call through variables and "
               "branches; it may not be dropped, and no path on which it failed may return success")
    a = Analysis(prog)
    r.count(fallible_functions=len(a.fallible))
    for F in prog.functions:
        if not F.blocks:
            continue
        calls = [n for n in F.walk() if is_call(n) and a.kind(n, F) and not optional(n)]
        for n in calls:
            r.count(attempts=1)
            last = (n.f or "").rsplit("::", 1)[-1]
            if not discarded(n):
                continue
            if last in CLOSERS and not write_mode(F, n):
                continue
            r.add("%s|dropped %s" % (F.q, last), F.where(n),
                  "%s: the outcome of '%s' is dropped; its failure goes unnoticed" % (F.q, show(n)[:80]))
        ch = a.channel(F)
        if ch and calls:
            for n, o, may, bad in a.returns(F, ch):
                r.count(returns=1)
                w = [i for i in may if isinstance(i, str) or not optional(F.nodes[i])]
                if o == "ok" and w:
                    i = w[0]
                    r.add("%s|success after %s" % (F.q, i if isinstance(i, str) else (F.nodes[i].f or "")), F.where(n),
                          "%s: reports success on a path where %s failed" %
                          (F.q, i if isinstance(i, str) else "'%s' (%s)" % (show(F.nodes[i])[:60], F.where(F.nodes[i]))))
            for n, i in a.pending:
                if not optional(F.nodes[i]) and not discarded(F.nodes[i]):
                    r.add("%s|unexamined %s" % (F.q, F.nodes[i].f), F.where(n),
                          "%s: reports success without having examined the outcome of '%s' (%s)" %
                          (F.q, show(F.nodes[i])[:60], F.where(F.nodes[i])))
            r.sample("%s: %d attempts" % (F.q, len(calls)))
        if not ch and tname(F.d.get("ret")) == "int" and calls:
            b, g, l = a.constants(F)
            for c in set(b) & set(g):
                r.add("%s|same result" % F.q, F.where(b[c]), "%s: returns %d both when an attempt failed and when it succeeded" % (F.q, c))
        outs = a.outputs(F)
        if outs:
            fl = Fail(a, F)
            fl.run()
            r.count(output_files=len(outs))
            hit = {}

            def cb(s, n, blk):
                if n.k == "ReturnStmt" and n.ch and not (ch and a.outcome(fl, s, n.ch[0], ch) == "fail"):
                    for p in s["dirty"]:
                        hit.setdefault(p, n)
            fl.visit(cb)
            for b, k in fl.fn.blocks.items():
                if b in fl.inn and fl.exit() in k.succ and not k.noret and not any(e.k == "ReturnStmt" for e in k.elems):
                    s = fl.copy(fl.inn[b])
                    for e in k.elems:
                        if "k" in e:
                            fl.transfer(s, e)
                    for p in s["dirty"]:
                        hit.setdefault(p, outs[p])
            for p, n in hit.items():
                r.add("%s|unverified output %s" % (F.q, p), F.where(outs[p]),
                      "%s: finishes although nothing checked that what was written to '%s' reached the file" % (F.q, p.split("#")[0]))
        if not ch and "<" in str(F.d.get("ret")) and any(n.f in INPUTS for n in calls):
            # a collection cannot say that its input failed
            fl = Fail(a, F)
            fl.run()
            s = fl.inn.get(fl.exit())
            r.count(input_functions=1)
            ins = [i for i in (s or {}).get("may", ()) if isinstance(i, int) and F.nodes[i].f in INPUTS]
            if s and ins and not s["noted"]:
                r.add("%s|input" % F.q, F.where(F.nodes[ins[0]]),
                      "%s: returns what it has although '%s' failed" % (F.q, show(F.nodes[ins[0]])[:60]))
        if not ch and any(a.is_output(F, n["i"]) for n in calls):
            fl = Fail(a, F)
            fl.run()
            s = fl.inn.get(fl.exit())
            r.count(output_functions=1)
            outs = [i for i in (s or {}).get("may", ()) if isinstance(i, int) and a.is_output(F, i)]
            if s and outs and not s["noted"]:
                r.add("%s|unrecorded" % F.q, F.where(F.nodes[outs[0]]),
                      "%s: a failure of '%s' is not recorded anywhere" % (F.q, show(F.nodes[outs[0]])[:60]))
    reporters = [F for F in prog.functions if id(F) in a.fallible and tname(F.d.get("ret")) == "int" and a.constants(F)[2]]
    r.count(latches=len(a.latches), latch_reporters=len(reporters))
    for l in sorted(a.latches):
        if not reporters:
            r.add("latch|" + l, a.latches[l], "a failure recorded in '%s' is never reported to a caller" % l)
    short_reads(prog, a, r)
    r.require(r.counts.get("attempts", 0) > 40 and len(a.fallible) > 15, "no operations that can fail found")
    r.assumptions = ["%s: %s" % kv for kv in OPTIONAL.items()]
    return r
