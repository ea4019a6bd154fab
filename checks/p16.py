"""Status reporting: consumers are shared under a lock, each is told once; progress and job are those of the work."""
from fractions import Fraction
import frontend
from frontend import Node
from wire import Wire, K, show, short, strip, cval
from paths import norm, simp
from core import Result
from checks.p15 import Run, Chk, calls, loops, inside, node_of, clean, shorten, has

LEVEL = "proof"
NSP = "devtools_crosstool_autofdo::"
MUTEX = ("absl::Mutex", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "absl::base_internal::SpinLock")
GUARD = ("MutexLock", "lock_guard", "unique_lock", "scoped_lock", "WriterMutexLock", "ReleasableMutexLock", "shared_lock", "ReaderMutexLock", "MutexLockMaybe")


def sub(n):
    if not isinstance(n, Node):
        return
    yield n
    for c in frontend.subnodes(n):
        yield from sub(c)


def mutexes(R):
    return [f["n"] for f in R.fields if any((f["t"] or "").replace("mutable ", "").strip() == m for m in MUTEX)]


class Locks:
    """where a method of a class with a mutex touches the guarded members, calls its own methods, and whether the lock is held there"""

    def __init__(self, prog, R, F, mu, guarded):
        self.prog, self.R, self.F, self.mu, self.guarded = prog, R, F, mu, guarded
        self.touch, self.call, self.take, self.leak = [], [], [], []
        self.names = {}
        self.seq(F.body, False)

    def locks(self, n):
        return any(x.k == "MemberExpr" and x.n in self.mu and (not x.ch or strip(x.ch[0]).k == "CXXThisExpr") for x in sub(n))

    def seq(self, n, held):
        """visits n in order; returns whether the lock is held after it within the same scope"""
        if not isinstance(n, Node):
            return held
        if n.k == "CompoundStmt":
            h, outer = held, held
            raii = False
            for c in n.ch:
                if c.k == "DeclStmt" and any(v.k == "VarDecl" and any(g in (v.t or "") for g in GUARD) and self.locks(v) for v in c.ch):
                    self.take.append((c, h))
                    h = raii = True
                    v = next(v for v in c.ch if v.k == "VarDecl" and any(g in (v.t or "") for g in GUARD))
                    self.names[v.d] = True
                    if any(x.n in ("defer_lock", "defer_lock_t") for x in sub(v)):
                        h = held
                else:
                    h = self.seq(c, h)
            return outer if raii else h
        if n.k == "CXXMemberCallExpr":
            nm = short(n.f)
            m = n.ch[0]
            b = strip(m.ch[0]) if m.ch else None
            if b is not None and (b.k == "MemberExpr" and b.n in self.mu or b.k == "DeclRefExpr" and b.d in self.names):
                if nm in ("Lock", "lock", "WriterLock", "ReaderLock"):
                    self.take.append((n, held))
                    return True
                if nm in ("Unlock", "unlock", "Release", "WriterUnlock", "ReaderUnlock"):
                    return False
                if nm in ("AssertHeld",):
                    return True
            if b is None or b.k == "CXXThisExpr":
                for G in self.prog.callee(n, self.F) or ():
                    if G.cls == self.R.q:
                        self.call.append((G, n, held))
        if n.k == "MemberExpr" and n.n in self.guarded and n.get("q", "").startswith(self.R.q) and (not n.ch or strip(n.ch[0]).k == "CXXThisExpr"):
            self.touch.append((n, held))
        if n.k == "ReturnStmt" and self.ref() and n.ch:
            x = strip(n.ch[0])
            if x.k == "UnaryOperator" and x.op == "&":
                x = strip(x.ch[0])
            if x.k == "MemberExpr" and x.n in self.guarded:
                self.leak.append(n)
        if n.k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
            for c in frontend.subnodes(n):
                self.seq(c, held)
            return held
        h = held
        for c in frontend.subnodes(n):
            h = self.seq(c, h)
        return h

    def ref(self):
        r = self.F.d.get("ret") or self.F.d.get("rt") or self.F.d.get("t") or ""
        return "&" in r or "*" in r


def discipline(prog, res):
    n = 0
    for R in prog.records.values():
        mu = mutexes(R)
        if not mu or not (getattr(R, "file", "") or "").strip():
            continue
        guarded = [f["n"] for f in R.fields if f["n"] not in mu and not (f["t"] or "").startswith("const ") and "atomic" not in (f["t"] or "")]
        if not guarded:
            continue
        n += 1
        ms = [F for F in prog.functions if F.cls == R.q and F.body is not None and F.name != R.name and not F.name.startswith("~")]
        L = {F: Locks(prog, R, F, mu, guarded) for F in ms}
        takes = {F for F in ms if L[F].take}
        for _ in ms:
            takes |= {F for F in ms if any(G in takes and not h for G, _, h in L[F].call)}
        for F in ms:
            for x, h in L[F].take:
                if h:
                    res.add("deadlock|" + F.q, F.where(x), "%s takes a lock it already holds" % short(F.q))
            for G, x, h in L[F].call:
                if h and G in takes:
                    res.add("deadlock|" + F.q, F.where(x), "%s calls %s, which takes the lock, while holding it" % (short(F.q), G.name))
            for x in L[F].leak:
                res.add("leak|" + F.q, F.where(x), "%s hands out the guarded %s, to be used without the lock" % (short(F.q), "/".join(guarded)))
        # methods that rely on their callers for the lock
        need = {F for F in ms if any(not h for _, h in L[F].touch)}
        for _ in ms:
            need |= {F for F in ms if any(G in need and not h for G, _, h in L[F].call)}
        for F in sorted(need, key=lambda F: F.q):
            access = (F.d.get("access") or F.d.get("acc") or "public")
            inner = [(G, h) for G in ms for H, _, h in L[G].call if H is F]
            if access == "private" and inner and all(h or G in need for G, h in inner):
                continue
            if access != "private" or not inner:
                for x, h in L[F].touch:
                    if not h:
                        res.add("lock|%s|%s" % (F.q, x.n), F.where(x), "%s uses %s without holding the lock" % (F.q.split("::", 1)[1], x.n))
                        break
                else:
                    res.add("lock|" + F.q, F.where(), "%s reaches the guarded members without holding the lock" % F.q.split("::", 1)[1])
        res.count(locked_classes=1, guarded_accesses=sum(len(x.touch) for x in L.values()), methods=len(ms))
    res.require(n, "classes with a lock")


def registry(prog, res):
    cls = "StatusConsumerRegistry"
    cons = ('m', ('this', NSP + cls), 'consumers_')
    for m in ("Start", "Stop"):
        for F in [F for F in prog.functions if F.q == NSP + cls + "::" + m and F.body is not None]:
            c = Chk(res, F)
            keep = lambda G: G.cls == NSP + "StatusConsumer"
            for p in Run(prog, F, keep).paths():
                es = [e for e in inside(p) if e[0] == 'sink' and e[1] == NSP + "StatusConsumer::" + m]
                res.count(obligations=1)
                lp = [e for e in loops(p) if any(x in es for q in e[3] for x in inside(q))]
                if not lp:
                    if any(e in p.effects for e in es) or not es:
                        c.fail("each", "%s does not reach every registered consumer" % m)
                    continue
                if len(lp) > 1 or lp[0][2] is None or clean(lp[0][2]) != ('size', cons):
                    c.fail("each", "%s does not reach every registered consumer exactly once" % m, node_of(lp[0]))
                for q in lp[0][3]:
                    if q.done in ('break', 'ret', 'leave'):
                        c.fail("each", "%s stops before the last consumer" % m, node_of(lp[0]))
                    k = [e for e in q.effects if e in es]
                    if len(k) != 1:
                        c.fail("each", "%s reaches a consumer %d times" % (m, len(k)), node_of(lp[0]))
                    for e in k:
                        if m == "Start" and not any(has(a, F.params[0]["n"]) or has(a, F.params[0]["d"]) for a in e[3]):
                            c.fail("provider", "a consumer is started with another provider", node_of(e))
                        if not has(clean(e[2]), cons):
                            c.fail("each", "%s is sent to %s" % (m, show(e[2])[:80]), node_of(e))
    for F in [F for F in prog.functions if F.q == NSP + cls + "::Register" and F.body is not None]:
        c = Chk(res, F)
        for p in Run(prog, F, lambda G: False).paths():
            res.count(obligations=1)
            put = [e for e in p.effects if e[0] == 'sink' and e[2] is not None and clean(e[2]) == cons]
            if len([e for e in put if short(e[1]) in ("push_back", "emplace_back", "insert", "emplace")]) != 1 or any(short(e[1]) in ("clear", "erase", "pop_back", "swap", "resize") for e in put) \
                    or not any(has(e[3], ('param', F.params[0]["n"])) for e in put) or any(e[0] == 'set' and has(e[1], cons) for e in p.effects):
                c.fail("register", "registering does not add exactly the given consumer")


def rat(t):
    """({monomial: coefficient}, denominator term or None)"""
    if t[0] == 'k':
        return ({(): Fraction(t[1])} if t[1] else {}), None
    if t[0] == 'op' and len(t[2]) == 2 and t[1] in ('+', '-', '*', '/'):
        (a, da), (b, db) = rat(t[2][0]), rat(t[2][1])
        if t[1] in ('+', '-') and da is None and db is None:
            o = dict(a)
            for m, c in b.items():
                o[m] = o.get(m, 0) + (c if t[1] == '+' else -c)
            return {m: c for m, c in o.items() if c}, None
        if t[1] == '*' and not (da is not None and db is not None):
            o = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = tuple(sorted(m + n, key=str))
                    o[k] = o.get(k, 0) + c * d
            return {m: c for m, c in o.items() if c}, da if da is not None else db
        if t[1] == '/' and db is None:
            if list(b) == [()]:
                return {m: c / b[()] for m, c in a.items()}, da
            if da is None:
                return a, t[2][1]
    return {(t,): Fraction(1)}, None


def divisors(t):
    if isinstance(t, tuple):
        if t[:1] == ('op',) and t[1] in ('/', '%') and t[2][1][0] != 'k':
            yield t[2][1]
        for x in t:
            yield from divisors(x)


def progress(prog, res):
    cls = "MultiStatusProvider"
    this = ('this', NSP + cls)
    ws, total = ('m', this, 'weighted_statuses_'), ('m', this, 'total_weight_')
    F = next((F for F in prog.functions if F.q == NSP + cls + "::GetProgress" and F.body is not None), None)
    res.require(F, "MultiStatusProvider::GetProgress")
    c = Chk(res, F)
    r = Run(prog, F, lambda G: G.cls == NSP + "StatusProvider")
    for p in r.paths():
        res.count(obligations=1)
        if p.ret is None:
            continue
        for d in divisors(p.ret):
            if not any(x[0] == 'op' and (x[1] in ('!=', '>') and x[2] == (d, K(0)) or x[1] in ('!=', '<') and x[2] == (K(0), d)) or x == d for x in p.conds):
                c.fail("zero", "divides by %s, which may be zero" % show(d))
        if p.ret[0] == 'k':
            if p.ret[1] != 100:
                c.fail("constant", "reports %d%% without looking at the work" % p.ret[1])
            continue
        num, den = rat(p.ret)
        res.count(formulas=1)
        w = [m for m in num if len(m) == 2]
        f = [m for m in num if len(m) == 1]
        if len(num) != 2 or len(w) != 1 or len(f) != 1:
            if has(p.ret, total) or has(p.ret, ws):
                if any(x[0] == 'after' for x in terms(p.ret)):
                    c.fail("formula", "progress is computed as %s" % show(p.ret)[:160])
            continue
        if den != total:
            c.fail("formula", "progress is relative to %s rather than the total weight" % (show(den)[:80] if den else "nothing"))
        if num[w[0]] != 1 or num[f[0]] != 100:
            c.fail("formula", "finished work counts %s, work in progress %s per cent" % (num[f[0]], num[w[0]]))
        a, b = w[0]
        wt, gp = (a, b) if a[0] == 'm' else (b, a)
        if not (wt[0] == 'm' and wt[2] == 'weight' and gp[0] == 'call' and short(gp[1]) == 'GetProgress' and gp[2] is not None and has(gp[2], wt[1])):
            c.fail("formula", "the progress of one part is weighted as another")
        fw = f[0][0]
        if fw[0] == 'after' and wt[1][0] == 'at' and wt[1][2][0] == 'after' and fw[2] == wt[1][2][2]:
            up = r.w.updates.get(fw[2], {})
            done = lambda t: K(1) if t[0] == 'call' and short(t[1]) == 'IsDone' else ('lv', wt[1][2][1], fw[2]) if t == ('idx', fw[2]) else None
            i, acc = (simp(x, done) if x is not None else None for x in (up.get(wt[1][2][1]), up.get(fw[1])))
            li, lf = ('lv', wt[1][2][1], fw[2]), ('lv', fw[1], fw[2])
            if i is not None and norm(i) != norm(('op', '+', (li, K(1)))):
                c.fail("scan", "the finished parts are not counted one by one")
            if acc is not None and norm(acc) != norm(('op', '+', (lf, ('m', ('at', ws, li), 'weight')))):
                c.fail("scan", "the weight of the finished parts is summed up as %s" % show(acc)[:100])
            g = r.w.guards.get(fw[2])
            if g is not None:
                cs = flat(g)
                if not any(x[0] == 'call' and short(x[1]) == 'IsDone' and has(x, li) for x in cs):
                    c.fail("scan", "unfinished parts are counted as finished")
        for n in F.walk():
            if n.k == "BinaryOperator" and n.op == "/" and n.t in ("int", "unsigned int", "long", "unsigned long"):
                q = n.parent
                while isinstance(q, Node) and (q.k in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr") or q.k == "BinaryOperator" and q.op in ("+", "-", "/")):
                    q = q.parent
                if isinstance(q, Node) and q.k == "BinaryOperator" and q.op == "*":
                    c.fail("rounding", "progress is rounded down before it is scaled up", n)
    for m, want in (("SetDone", "SetDone"),):
        for G in [G for G in prog.functions if G.q == NSP + cls + "::" + m and G.body is not None]:
            d = Chk(res, G)
            for p in Run(prog, G, lambda H: H.cls == NSP + "StatusProvider").paths():
                res.count(obligations=1)
                lp = [e for e in loops(p) if e[2] is not None and clean(e[2]) == ('size', ws) and all(q.done is None and sum(1 for x in q.effects if x[0] == 'sink' and short(x[1]) == want) == 1 for q in e[3])]
                if not lp:
                    d.fail("each", "not every part of the work is marked as done")
    for G in [G for G in prog.functions if G.q == NSP + cls + "::AddStatusProvider" and G.body is not None]:
        d = Chk(res, G)
        for p in Run(prog, G, lambda H: False).paths():
            res.count(obligations=2)
            wt, sp = (('param', x["n"]) for x in G.params[:2])
            last = [e[2] for e in p.effects if e[0] == 'set' and e[1] == total]
            if not last or norm(last[-1]) != norm(('op', '+', (total, wt))):
                d.fail("total", "the total weight becomes %s" % (show(last[-1]) if last else "stale"))
            put = [e for e in p.effects if e[0] == 'sink' and e[2] is not None and clean(e[2]) == ws and short(e[1]) in ("push_back", "emplace_back", "insert", "emplace")]
            if len(put) != 1 or not has(put[0][3], wt) or not has(put[0][3], sp):
                d.fail("add", "a part of the work is not added with its weight")
    # the simple provider
    for G in [G for G in prog.functions if G.cls == NSP + "DefaultStatusProvider" and G.body is not None]:
        d = Chk(res, G)
        pf = ('m', ('this', NSP + "DefaultStatusProvider"), 'progress_')
        for p in Run(prog, G, lambda H: False).paths():
            res.count(obligations=1)
            st = [e[2] for e in p.effects if e[0] == 'set' and e[1] == pf]
            if G.name == "GetProgress" and p.ret != pf:
                d.fail("value", "reports %s rather than the progress set" % show(p.ret))
            if G.name == "GetJob" and clean(p.ret) != ('m', pf[1], 'job_'):
                d.fail("value", "reports %s as its job" % show(p.ret))
            if G.name == "SetProgress" and (not st or st[-1] != ('param', G.params[0]["n"])) and not p.conds:
                d.fail("value", "the progress set is %s" % (show(st[-1]) if st else "dropped"))
            if G.name == "SetDone" and (not st or st[-1] != K(100)):
                d.fail("done", "work marked as done stays at %s" % (show(st[-1]) if st else "its progress"))
            if G.name == "IsDone":
                at = {v: value(p.ret, pf, v) for v in (0, 1, 50, 99, 100)}
                if None not in at.values() and at != {0: 0, 1: 0, 50: 0, 99: 0, 100: 1}:
                    d.fail("done", "counts as done at %s" % ", ".join("%d%%" % v for v in at if at[v]))
    # which part is reported
    G = next((G for G in prog.functions if G.q == NSP + cls + "::IsDone" and G.body is not None), None)
    if G is not None:
        for L in searched(prog, cls):
            for p in Run(prog, L, lambda H: H.cls == NSP + "StatusProvider").paths():
                res.count(obligations=1)
                t = p.ret
                if t is not None and any(x[0] == 'call' and short(x[1]) == 'IsDone' for x in terms(t)) and not (t[0] == 'op' and t[1] in ('!', '==')):
                    Chk(res, L).fail("first", "the part reported is a finished one")


def searched(prog, cls):
    """the predicates of the searches in the methods of a class"""
    for F in prog.functions:
        if F.cls == NSP + cls and F.body is not None:
            for n in sub(F.body):
                if n.k == "CallExpr" and short(n.f) in ("c_find_if", "find_if"):
                    for x in sub(n):
                        if x.k == "LambdaExpr":
                            for L in lambdas_of(prog, x):
                                yield L


def lambdas_of(prog, x):
    return [f for f in prog.lambdas.get(x.get("fk")) or () if f.body is not None]


def value(t, pf, v):
    from paths import simp
    r = simp(t, lambda x: K(v) if x == pf else None)
    return r[1] if r[0] == 'k' else None


def flat(g):
    return flat(g[2][0]) + flat(g[2][1]) if g[0] == 'op' and g[1] == '&&' else [g]


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from terms(x)


def check(prog, tier):
    res = Result("members of a class with a lock are only used while it is held, and it is never taken twice; starting and stopping reach every registered consumer once; "
                 "progress is the weighted share of finished work and never divides by zero")
    discipline(prog, res)
    registry(prog, res)
    progress(prog, res)
    res.assumptions = ["each part reports a progress between 0 and 100 and has a positive weight", "consumers do not call back into the registry"]
    return res
