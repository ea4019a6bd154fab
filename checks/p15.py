"""Conversion between the symbol table and LLVM sample profiles: every count at its own place, once."""
import frontend
from wire import Wire, K, show, short, strip, cval
from paths import paths, norm, simp
from core import Result

LEVEL = "proof"
NSP = "devtools_crosstool_autofdo::"


def bare(t):
    """t without copies, conversions and references"""
    while isinstance(t, tuple) and t:
        if t[0] == 'lv' and isinstance(t[1], tuple):
            t = t[1]
        elif t[0] == 'new' and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'new' and short(t[1]) in ('StringRef', 'basic_string', 'basic_string_view') and len(t[2]) >= 2:
            d, s = t[2][0], t[2][1]
            if d[0] == 'call' and short(d[1]) == 'data' and s in (('size', d[2]), ('call', 'size', d[2], ())):
                t = d[2]
            elif d[0] == 'call' and short(d[1]) == 'begin' and s[0] == 'call' and short(s[1]) == 'end' and s[2] == d[2]:
                t = d[2]
            else:
                return t
        elif t[0] == 'call' and len(t) > 3 and not t[3] and short(t[1]) in ('c_str', 'str', 'operator basic_string_view', 'operator bool', 'operator basic_string', 'get') and t[2] is not None:
            t = t[2]
        else:
            break
    return t


def clean(t):
    """bare() applied everywhere"""
    if not isinstance(t, tuple):
        return t
    t = bare(t)
    if not isinstance(t, tuple) or not t:
        return t
    return tuple(clean(x) if isinstance(x, tuple) else x for x in t)


def subst(t, old, new):
    if t == old:
        return new
    return tuple(subst(x, old, new) for x in t) if isinstance(t, tuple) else t


class Run:
    def __init__(self, prog, F, keep, depth=3):
        self.w = Wire(prog, {}, inline=lambda G: not keep(G))
        self.w.opaque = keep
        self.w.reach = set()
        self.w.rets = True
        self.w.depth = depth
        self.items = self.w.run(F)

    def paths(self, env=lambda t: None):
        return [p for p in paths(self.items, env) if p.done != 'dead']


def node_of(e):
    return next((x for x in e if isinstance(x, frontend.Node)), None)


def one(prog, q, n=None):
    c = [F for F in prog.functions if F.q == NSP + q and F.body is not None and (n is None or len(F.params) == n)]
    if not c:
        raise frontend.AnalysisBroken("no definition of " + q)
    return c[0]


def calls(p, name):
    return [e for e in p.effects if e[0] == 'sink' and short(e[1]) == name]


def loops(p):
    return [e for e in p.effects if e[0] == 'loop']


def inside(p):
    for e in p.effects:
        yield e
        if e[0] == 'loop':
            for q in e[3]:
                yield from inside(q)


class Chk:
    def __init__(self, res, F):
        self.res, self.F = res, F

    def fail(self, key, msg, n=None):
        self.res.add("%s|%s" % (self.F.q.split("::", 1)[1], key), self.F.where(n) if n is not None and getattr(n, "fn", None) is self.F else self.F.where(), msg)

    def once(self, p, name, what, pred):
        self.res.count(obligations=1)
        c = calls(p, name)
        if len(c) != 1:
            self.fail(what, "%s %s" % (what, "is never recorded" if not c else "is recorded %d times" % len(c)), node_of(c[1]) if c else None)
            return None
        r = pred(c[0])
        if r is not True:
            self.fail(what, "%s is recorded with %s" % (what, r), node_of(c[0]))
        return c[0]

    def never(self, p, name, what):
        self.res.count(obligations=1)
        for c in [e for e in inside(p) if e[0] == 'sink' and short(e[1]) == name]:
            self.fail("extra " + what, "%s is recorded once more" % what, node_of(c))

    def loop(self, p, over, what):
        """the body paths of the one loop that visits every element of over"""
        self.res.count(obligations=1)
        good = [e for e in loops(p) if e[2] is not None and shorten(clean(e[2])) == ('size', shorten(over))]
        if not good:
            self.fail("loop " + what, "not every one of %s is visited" % what)
            return None, []
        if len(good) > 1 and sum(1 for e in good if any(x[0] in ('sink', 'set') for q in e[3] for x in inside(q))) > 1:
            return None, []
        e = max(good, key=lambda e: sum(1 for q in e[3] for _ in inside(q)))
        for q in e[3]:
            if q.done in ('break', 'ret', 'leave'):
                self.fail("loop " + what, "%s after some entry are left out" % what, node_of(e))
        return e[1], [q for q in e[3] if q.done != 'dead']


def expect(*want):
    def f(args):
        for a, w, n in zip(args, want, range(9)):
            if norm(clean(a)) != norm(w):
                return show(a)[:160] + " rather than " + show(w)[:120]
        return True
    return f


def decoders(prog):
    out = {}
    for n in ("GetLineNumberFromOffset", "GetDiscriminatorFromOffset"):
        F = one(prog, "SourceInfo::" + n)
        ps = Run(prog, F, lambda G: False).paths()
        if len(ps) != 1 or ps[0].ret is None:
            raise frontend.AnalysisBroken("cannot evaluate " + n)
        out[n] = lambda off, r=ps[0].ret, a=('param', F.params[0]["n"]): clean(subst(r, a, off))
    return out


def entry(uid, over):
    return ('elem', over, uid)


def traversal(prog, res):
    """SymbolTraverser: every symbol above the threshold, every inlined call below it, levels in step"""
    keep = lambda G: G.name in ("Visit", "VisitTopSymbol", "VisitCallsite", "Traverse")
    F = one(prog, "SymbolTraverser::Start")
    c = Chk(res, F)
    mp = ('m', ('param', F.params[0]["n"]), 'map_')
    for p in Run(prog, F, keep).paths():
        uid, body = c.loop(p, mp, "the symbols")
        if uid is None:
            continue
        el = entry(uid, mp)
        for q in body:
            top, sub = calls(q, "VisitTopSymbol"), calls(q, "Traverse")
            res.count(obligations=2)
            out = any(clean(x)[0] == 'op' and clean(x)[1] in ('<=', '<') for x in q.conds if emitted(clean(x), el))
            if out:
                if top or sub:
                    c.fail("threshold", "a symbol at or below the threshold is visited")
                continue
            if [clean(x) for x in q.conds if not emitted(clean(x), el)]:
                if not top or not sub:
                    c.fail("skip", "a symbol above the threshold is skipped when %s" % show(q.conds[-1])[:120])
                    continue
            if len(top) != 1 or len(sub) != 1:
                c.fail("visit", "a symbol above the threshold is announced %d times and visited %d times" % (len(top), len(sub)))
                continue
            r = expect(('m', el, 'first'), ('m', el, 'second'))(top[0][3])
            s = expect(('m', el, 'second'))(sub[0][3])
            if r is not True or s is not True:
                c.fail("visit", "a symbol is visited as %s" % (r if r is not True else s), node_of(top[0]))
            if q.effects.index(top[0]) > q.effects.index(sub[0]):
                c.fail("order", "a symbol is visited before it is announced", node_of(top[0]))
    F = one(prog, "SymbolTraverser::Traverse")
    c = Chk(res, F)
    node = ('param', F.params[0]["n"])
    lev = ('m', ('this', NSP + 'SymbolTraverser'), 'level_')
    for p in Run(prog, F, keep).paths():
        v = c.once(p, "Visit", "the symbol itself", lambda e: expect(node)(e[3]))
        cs = ('m', node, 'callsites')
        uid, body = c.loop(p, cs, "the inlined calls")
        lv, at = lev, None
        for e in p.effects:
            if e[0] == 'set' and e[1] == lev:
                lv = e[2]
            if e is v and norm(lv) != norm(('op', '+', (lev, K(1)))):
                c.fail("level", "a symbol is visited at level %s" % show(lv))
            if e[0] == 'loop' and e[1] == uid and norm(lv) != norm(('op', '+', (lev, K(1)))):
                c.fail("level", "the inlined calls are visited at level %s" % show(lv))
        if norm(lv) != norm(lev):
            c.fail("level", "the level is not restored afterwards")
        order = [e for e in p.effects if e is v or e[0] == 'loop' and e[1] == uid]
        if v is not None and order and order[0] is not v:
            c.fail("order", "the inlined calls are visited before the symbol itself")
        for q in body:
            el = entry(uid, cs)
            a = c.once(q, "VisitCallsite", "an inlined call", lambda e: expect(('m', el, 'first'))(e[3]))
            b = c.once(q, "Traverse", "an inlined body", lambda e: expect(('m', el, 'second'))(e[3]))
            if a and b and q.effects.index(a) > q.effects.index(b):
                c.fail("order", "an inlined body is visited before its call")


def emitted(x, el):
    return x[0] == 'op' and x[1] in ('<=', '>', '<', '>=') and any(has(y, ('m', ('m', el, 'second'), 'total_count')) for y in x[2]) and any(has(y, 'count_threshold_') for y in x[2])


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


def named(t):
    """the function name an entry of the name table stands for"""
    t = clean(t)
    for _ in range(6):
        if t[0] == 'm' and t[2] == 'first' and has(t, 'find'):
            f = t
            while f[0] != 'call':
                f = f[1]
            if short(f[1]) != 'find' or not has(f[2], 'name_table_'):
                break
            t = clean(f[3][0])
        elif t[0] == 'op' and t[1] in ('phi', '?') and len(t[2]) == 3:
            c, a, b = t[2]
            t = next((clean(x) for x in (a, b) if x[0] not in ('str', 'k')), t)
        else:
            break
    return t


def writer(prog, res, dec):
    cls = "LLVMProfileBuilder"
    this = ('this', NSP + cls)
    stack = ('m', this, 'inline_stack_')
    keep = lambda G: False
    # a function of its own
    F = one(prog, cls + "::VisitTopSymbol")
    c = Chk(res, F)
    name, node = (('param', x["n"]) for x in F.params[:2])
    for p in Run(prog, F, keep).paths():
        prof = []
        for meth, fld, what in (("addHeadSamples", "head_count", "the entry count"), ("addTotalSamples", "total_count", "the total count")):
            e = c.once(p, meth, what, lambda e: expect(('m', node, fld), K(1))(e[3]))
            prof += [e[2]] if e else []
        e = c.once(p, "setFunction", "the function name", lambda e: named(e[3][0]) == name or show(e[3][0])[:120])
        prof += [e[2]] if e else []
        for x in prof:
            y = clean(x)
            if not (y[0] == 'at' and y[1] == ('m', this, 'profiles_') and named(y[2]) == name):
                c.fail("place", "the function's counts go to %s" % show(x)[:160])
        st = content(p, stack)
        if not (len(st) == 1 and prof and clean(st[0]) == clean(prof[0])):
            c.fail("stack", "the inlined calls of a function do not start from its own profile")
    # the body of a function or of an inlined call
    F = one(prog, cls + "::Visit")
    c = Chk(res, F)
    node = ('param', F.params[0]["n"])
    lev = lambda k: (lambda t: K(k) if isinstance(t, tuple) and t[0] == 'm' and t[2] == 'level_' else None)
    for k in (1, 2, 3):
        for p in Run(prog, F, keep).paths(lev(k)):
            cur = ('call', 'back', stack, ())
            if k == 1:
                c.never(p, "addTotalSamples", "the total count")
            else:
                c.once(p, "addTotalSamples", "the total count of an inlined call", lambda e: clean(e[2]) == cur and expect(('m', node, 'total_count'), K(1))(e[3]) or show(e[2]))
            c.never(p, "addHeadSamples", "the entry count")
            pcs = ('m', node, 'pos_counts')
            uid, body = c.loop(p, pcs, "the source positions")
            for q in body:
                el = entry(uid, pcs)
                off = ('m', el, 'first')
                line, disc = dec["GetLineNumberFromOffset"](off), dec["GetDiscriminatorFromOffset"](off)
                at = lambda e: clean(e[2]) == cur or "profile " + show(e[2])[:80]
                both = lambda e, w: at(e) if at(e) is not True else w(e[3])
                c.once(q, "addBodySamples", "the count of a position", lambda e: both(e, expect(line, disc, ('m', ('m', el, 'second'), 'count'), K(1))))
                tm = ('m', ('m', el, 'second'), 'target_map')
                u2, b2 = c.loop(q, tm, "the call targets")
                for r in b2:
                    t = entry(u2, tm)
                    c.once(r, "addCalledTargetSamples", "the count of a call target",
                           lambda e: both(e, expect(line, disc, ('m', t, 'first'), ('m', t, 'second'), K(1))))
    # entering an inlined call
    F = one(prog, cls + "::VisitCallsite")
    c = Chk(res, F)
    cs = ('param', F.params[0]["n"])
    off = ('m', cs, 'location')
    for p in Run(prog, F, keep).paths():
        e = c.once(p, "setFunction", "the inlined function's name", lambda e: named(e[3][0]) == ('m', cs, 'callee_name') or show(e[3][0])[:120])
        st = content(p, stack)
        if e is None:
            continue
        y = clean(e[2])
        want = (dec["GetLineNumberFromOffset"](off), dec["GetDiscriminatorFromOffset"](off))
        ok = y[0] == 'at' and named(y[2]) == ('m', cs, 'callee_name') and y[1][0] == 'call' and short(y[1][1]) == 'functionSamplesAt' and y[1][2] == ('call', 'back', stack, ())
        if ok:
            loc = y[1][3][0]
            ok = loc[0] == 'new' and tuple(norm(clean(x)) for x in loc[2]) == tuple(norm(x) for x in want) or loc[0] == 'op' and loc[1] == '{}' and tuple(norm(clean(x)) for x in loc[2]) == tuple(norm(x) for x in want)
        if not ok:
            c.fail("place", "an inlined call's samples go to %s" % show(e[2])[:200], node_of(e))
        if not st or clean(st[-1]) != y:
            c.fail("stack", "what follows an inlined call is not recorded within it")
    trims(prog, res, F)
    # the file
    F = one(prog, cls + "::Write")
    c = Chk(res, F)
    for p in Run(prog, F, lambda G: G.name == "ConvertProfiles").paths():
        w = c.once(p, "write", "the profile", lambda e: has(e[3], NSP + cls + "::ConvertProfiles") or show(e[3][0])[:100])
        if w is None:
            continue
        bad = failed(p, lambda x: has(x, w[1]))
        if bad is None:
            c.fail("result", "a failed write is not noticed", node_of(w))
        elif p.ret != K(not bad):
            c.fail("result", "the outcome of the write is reported as %s" % (show(p.ret) if p.ret else "nothing"), node_of(w))
        fs = [e for e in p.effects if e[0] == 'set' and has(e[1], 'llvm::sampleprof::FunctionSamples::ProfileIsFS')]
        if not fs or fs[-1][2] != ('g', NSP + 'SourceInfo::use_fs_discriminator') or p.effects.index(fs[-1]) > p.effects.index(w):
            c.fail("fs", "the profile is not marked with the discriminator encoding it uses")
    F = one(prog, "LLVMProfileWriter::WriteToFile")
    c = Chk(res, F)
    for p in Run(prog, F, lambda G: G.q.endswith(("Builder::Write", "::Update", "::CreateSampleWriter", "::Dump"))).paths():
        w = calls(p, "Write")
        if not w:
            if p.ret != K(0):
                c.fail("result", "a file that was not written is reported as written")
            continue
        if p.ret is None or bare(p.ret)[0] != 'call' or short(bare(p.ret)[1]) != 'Write':
            f = failed(p, lambda x: has(x, w[0][1]))
            if f is None or p.ret != K(f):
                c.fail("result", "the outcome of the write is reported as %s" % (show(p.ret)[:80] if p.ret else "nothing"), node_of(w[0]))
        up = calls(p, "Update")
        if not up or p.effects.index(up[0]) > p.effects.index(w[0]):
            c.fail("names", "the profile is written before its names are collected")


def failed(p, pred):
    """whether the path has found the value pred denotes true, false, or never asked (None)"""
    for x in p.conds:
        y = x
        neg = False
        while y[0] == 'op' and y[1] == '!':
            neg, y = not neg, y[2][0]
        if pred(y):
            if y[0] == 'op' and y[1] == '==' and K(0) in y[2]:
                neg = not neg
            return not neg
    return None


def content(p, stack):
    """what a path leaves on top of the stack, innermost last"""
    out = [('unknown',)]
    for e in p.effects:
        if e[0] == 'set' and clean(e[1]) == stack:
            v = clean(e[2])
            out = list(v[1]) if v[0] == 'list' else list(v[2]) if v[0] == 'op' and v[1] == '{}' else list(v[2]) if v[0] == 'new' else [v]
        if e[0] != 'sink' or e[2] is None or clean(e[2]) != stack:
            continue
        n = short(e[1])
        if n == "clear":
            out = []
        elif n in ("push_back", "emplace_back"):
            out = out + [addr(e[3][0])]
        elif n == "pop_back":
            out = out[:-1]
        elif n == "assign" and len(e[3]) == 2 and e[3][0] == K(1):
            out = [addr(e[3][1])]
        elif n == "assign" and e[3] and e[3][0][0] == 'list':
            out = [addr(x) for x in e[3][0][1]]
    return out


def addr(t):
    return t[1] if t[0] in ('addr',) else t


def trims(prog, res, F):
    """before an inlined call is entered, the stack is cut back to the depth of its caller"""
    res.count(obligations=1)
    seen, todo = {F}, [F]
    while todo:
        G = todo.pop()
        for n in G.walk():
            if n.k == "CXXMemberCallExpr":
                for H in prog.callee(n, G) or ():
                    if H.body is not None and H.cls == F.cls and H not in seen:
                        seen.add(H)
                        todo.append(H)
    for G in seen:
        for n in G.walk():
            if n.k in ("WhileStmt", "ForStmt", "DoStmt") and any(x.k == "CXXMemberCallExpr" and short(x.f) == "pop_back" for x in sub(n)):
                cond = n.get("cond")
                cs = [x for x in sub(cond if isinstance(cond, dict) else n) if x.k == "BinaryOperator" and x.op in (">", "<", "!=", ">=", "<=") and any(y.n == "level_" for y in sub(x))]
                for x in cs:
                    a, b = x.ch[0], x.ch[1]
                    la, lb = any(y.n == "level_" for y in sub(a)), any(y.n == "level_" for y in sub(b))
                    off = offset(a) - offset(b) if lb else offset(b) - offset(a)   # size + off  OP  level
                    op = x.op if lb else {">": "<", "<": ">", "!=": "!=", ">=": "<=", "<=": ">="}[x.op]
                    if (op in (">", "!=") and off == 0) or (op == ">=" and off == -1):
                        return
                    Chk(res, F).fail("trim", "the stack of inlined calls is not cut back to the caller's depth", x)
                    return
            if n.k == "CXXMemberCallExpr" and short(n.f) == "resize" and any(y.n == "level_" for y in sub(n)):
                return
            if n.k == "CXXMemberCallExpr" and short(n.f) == "erase" and any(y.n == "level_" for y in sub(n)):
                return
    Chk(res, F).fail("trim", "the stack of inlined calls is never cut back to the caller's depth")


def offset(n):
    """the constant a difference or sum adds"""
    t = 0
    for x in sub(n):
        if x.k == "BinaryOperator" and x.op in ("+", "-") and len(x.ch) == 2:
            l = strip(x.ch[1])
            if l.k == "IntegerLiteral":
                t += (cval(l) or 0) * (1 if x.op == "+" else -1)
    return t


def sub(n):
    yield n
    for x in n.ch:
        yield from sub(x)


def reader(prog, res):
    cls = "LLVMProfileReader"
    F = one(prog, cls + "::ReadFromFunctionSamples")
    c = Chk(res, F)
    this = ('this', NSP + cls)
    sm = ('m', this, 'symbol_map_')
    stk, fs = (('param', x["n"]) for x in F.params[:2])
    keep = lambda G: G.cls in (NSP + "SymbolMap", NSP + "SourceInfo") or G.name in ("GetName", "shouldMergeProfileForSym", "ReadFromFunctionSamples")
    run = Run(prog, F, keep)
    empty = ('call', 'empty', stk, ())
    perf = next((x for x in (enumerator(prog, "PERFDATA"),) if x is not None), -1)

    def fn(name):
        return ('call', name, fs, ())

    def same(t, w):
        return norm(shorten(clean(t))) == norm(w)

    me = ('call', 'GetName', this, (fn('getFuncName'),))

    def stackof(t, loc):
        """[this function at loc] + the stack so far"""
        t = shorten(clean(t))
        if t[0] != 'list' or len(t[1]) != 2:
            return "the stack " + show(t)[:100]
        i, rest = t[1]
        if not (rest == stk or rest[0] in ('all', '*', 'spread') and has(rest, stk)):
            return "the callers " + show(rest)[:80]
        if i[0] == 'new' and len(i[2]) == 6:
            a = i[2]
        elif i[0] == 'op' and i[1] == '{}':
            a = i[2]
        else:
            return "the position " + show(i)[:100]
        if a[0] != me:
            return "the function " + show(a[0])[:80]
        if a[3] != K(0) or norm(a[4]) != norm(('m', loc, 'LineOffset')) or norm(a[5]) != norm(('m', loc, 'Discriminator')):
            return "the line %s and discriminator %s" % (show(a[4])[:60], show(a[5])[:60])
        return True

    for top in (True, False):
        for merge in ((True, False) if top else (True,)):
            for zero in ((True, False) if top else (True,)):
                def env(t):
                    if t == empty:
                        return K(top)
                    if t[0] == 'op' and t[1] in ('==', '!=', '>') and has(t, ('size', stk)) and K(0) in t[2]:
                        return K(top == (t[1] == '=='))
                    if t[0] == 'call' and short(t[1]) == 'shouldMergeProfileForSym':
                        return K(merge)
                    if t[0] == 'm' and t[2] == 'total_count':
                        return K(0 if zero else 7)
                    return None
                for p in run.paths(env):
                    res.count(cases=1)
                    if not merge:
                        if any(e[0] == 'sink' and short(e[1]) in ("AddSymbol", "AddSymbolEntryCount", "AddSourceCount", "AddIndirectCallTarget") for e in inside(p)):
                            c.fail("excluded", "an excluded function's profile is read in")
                        continue
                    if p.conds:
                        c.fail("cases", "whether samples are read depends on %s" % show(p.conds[-1])[:120])
                        continue
                    if top:
                        c.once(p, "AddSymbol", "the function", lambda e: same(e[3][0], me) or show(e[3][0])[:80])
                        head = [e for e in calls(p, "AddSymbolEntryCount") if len(e[3]) > 1 and same(e[3][1], fn('getHeadSamples')) and same(e[3][0], me)]
                        tot = [e for e in calls(p, "AddSymbolEntryCount") if len(e[3]) > 2 and same(e[3][2], fn('getTotalSamples')) and same(e[3][0], me)]
                        for e in calls(p, "AddSymbolEntryCount"):
                            if e not in head and e not in tot:
                                c.fail("head", "the counts of a function are read as %s" % show(e[3][1])[:80], node_of(e))
                            elif e in head and e not in tot and len(e[3]) > 2 and e[3][2] != K(0):
                                c.fail("head", "the total of a function is counted with its entry count", node_of(e))
                            elif e in tot and e not in head and e[3][1] != K(0):
                                c.fail("head", "the entry count of a function is counted twice", node_of(e))
                        if len(head) != 1:
                            c.fail("head", "the entry count of a function is read %d times" % len(head))
                        res.count(obligations=3)
                        body = [i for i, e in enumerate(p.effects) if e[0] == 'loop' and has(e[2], fn('getBodySamples')[1]) or e[0] == 'loop' and any(short(x[1]) == "AddSourceCount" for q in e[3] for x in q.effects if x[0] == 'sink')]
                        if zero and len(tot) != 1 or not zero and tot:
                            c.fail("total", "the total of a function %s" % ("without body samples is lost" if zero else "with body samples is counted twice"))
                        elif tot and body and p.effects.index(tot[0]) < max(body):
                            c.fail("total", "the total is added before the body samples are known")
                        add = calls(p, "AddSymbol")
                        if add and body and p.effects.index(add[0]) > min(body):
                            c.fail("order", "samples are added before their function")
                    else:
                        c.never(p, "AddSymbol", "the enclosing function")
                        c.never(p, "AddSymbolEntryCount", "the entry count of the enclosing function")
                    who = me if top else ('m', ('call', 'back', stk, ()), 'func_name')
                    tname = lambda t: same(t, who) or "function " + show(t)[:80]
                    bs = find_loop(c, p, 'getBodySamples', fs, "the body samples")
                    if bs:
                        uid, body, over = bs
                        el = entry(uid, over)
                        for q in body:
                            def src(e):
                                a = e[3]
                                for r in (tname(a[0]), stackof(a[1], ('m', el, 'first')), same(a[2], ('call', 'getSamples', ('m', el, 'second'), ())) or "the count " + show(a[2])[:60], a[3] == K(1) or "a number of instructions",
                                          len(a) < 5 or a[4] == K(1) or "a multiplicity of " + show(a[4])[:40], len(a) < 6 or a[5] != K(perf) or "the rule for machine samples"):
                                    if r is not True:
                                        return r
                                return True
                            s = c.once(q, "AddSourceCount", "a body sample", src)
                            ct = find_loop(c, q, 'getCallTargets', ('m', el, 'second'), "the call targets")
                            if ct:
                                for r in ct[1]:
                                    t = entry(ct[0], ct[2])

                                    def tgt(e):
                                        a = e[3]
                                        n = shorten(clean(a[2]))
                                        for x in (tname(a[0]), stackof(a[1], ('m', el, 'first')),
                                                  n[0] == 'call' and n[1] == 'GetName' and has(n[3], ('m', t, 'first')) or "target " + show(n)[:60], same(a[3], ('m', t, 'second')) or "the count " + show(a[3])[:60]):
                                            if x is not True:
                                                return x
                                        return True
                                    c.once(r, "AddIndirectCallTarget", "a call target", tgt)
                    cl = find_loop(c, p, 'getCallsiteSamples', fs, "the inlined calls")
                    if cl:
                        uid, body, over = cl
                        el = entry(uid, over)
                        for q in body:
                            u, b = c.loop(q, ('m', el, 'second'), "the inlined functions of a call")
                            for r in b:
                                i = entry(u, ('m', el, 'second'))

                                def inl(e):
                                    x = stackof(e[3][0], ('m', el, 'first'))
                                    return x if x is not True else same(e[3][1], ('m', i, 'second')) or "samples " + show(e[3][1])[:60]
                                c.once(r, "ReadFromFunctionSamples", "an inlined function", inl)
    F = one(prog, cls + "::GetName")
    c = Chk(res, F)
    for p in Run(prog, F, lambda G: False).paths():
        res.count(obligations=1)
        r = clean(p.ret) if p.ret else ('none',)
        ins = [x for x in calls(p, "insert") + calls(p, "emplace")]
        if not (has(r, ('m', this, 'names_')) and ins and has(r, ('param', F.params[0]["n"]))):
            c.fail("name", "a name is read as %s" % show(r)[:100])
        if any(has(clean(e[3]), w) for e in ins for w in ('substr', 'drop_back', 'drop_front', 'take_front')):
            c.fail("name", "a name is cut")
    F = one(prog, cls + "::ReadFromFile", 2)
    c = Chk(res, F)
    for p in Run(prog, F, lambda G: G.name in ("ReadFromFunctionSamples",)).paths():
        mk, rd = calls(p, "create"), calls(p, "read")
        res.count(obligations=2)
        bad = [x for x in p.conds if has(x, 'operator bool') and x[0] == 'op' and x[1] == '!' and mk and has(x, mk[0][1]) and not has(x, 'getProfileSymbolList')]
        done = [e for e in inside(p) if e[0] == 'sink' and short(e[1]) == "ReadFromFunctionSamples"]
        if p.ret == K(1):
            if not mk or not rd or not done:
                c.fail("result", "a profile is reported as read without having been read")
            elif not any(has(x, rd[0][1]) and not has(x, 'getProfileSymbolList') for x in p.conds):
                c.fail("result", "a failure to read the profile is not noticed", node_of(rd[0]))
            for e in done:
                if shorten(clean(e[3][0])) not in (('list', ()), ('new', NSP + 'SourceStack', ())):
                    c.fail("stack", "a function of its own is read as an inlined call", node_of(e))
            lp = [e for e in loops(p) if any(x in done for q in e[3] for x in q.effects)]
            for e in lp:
                if not has(e[2], 'getProfiles') and not any(has(x, 'llvm::sampleprof::SampleProfileReader::getProfiles') for x in [e[2]]):
                    c.fail("loop", "not every function of the profile is read", node_of(e))
                for q in e[3]:
                    if q.done in ('break', 'ret', 'leave') or len(calls(q, "ReadFromFunctionSamples")) != 1:
                        c.fail("loop", "a function of the profile is left out when %s" % (show(q.conds[-1])[:100] if q.conds else "another was read"), node_of(e))
            sl = calls(p, "getProfileSymbolList")
            have = [x for x in p.conds if has(x, 'getProfileSymbolList') or has(x, 'llvm::sampleprof::SampleProfileReader::getProfileSymbolList')]
            if have and not (have[0][0] == 'op' and have[0][1] in ('!', '==')):
                if not calls(p, "merge") or not any(e[0] == 'set' and e[1][0] == 'm' and e[1][2] == 'prof_sym_list_' for e in p.effects):
                    c.fail("symbols", "the symbol list of the profile is lost")
        elif p.ret == K(0):
            if done and any(e in done for e in p.effects):
                c.fail("result", "a profile that was read is reported as unreadable")
        else:
            c.fail("result", "the outcome of reading is %s" % (show(p.ret)[:80] if p.ret else "unknown"))


def enumerator(prog, name):
    for e in prog.enums.values() if isinstance(prog.enums, dict) else prog.enums:
        vs = e.get("consts") if isinstance(e, dict) else getattr(e, "consts", None)
        for x in (vs.items() if isinstance(vs, dict) else [(y.get("n"), y.get("v")) for y in vs or ()]):
            if x[0] == name:
                return int(x[1])
    return None


def shorten(t):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('call',) and len(t) > 3 and isinstance(t[1], str):
        return ('call', short(t[1]), shorten(t[2]) if t[2] else t[2], tuple(shorten(x) for x in t[3]))
    return tuple(shorten(x) for x in t)


def find_loop(c, p, getter, on, what):
    c.res.count(obligations=1)
    for e in loops(p):
        n = shorten(clean(e[2])) if e[2] is not None else None
        if n and n[0] == 'size' and n[1][0] == 'call' and short(n[1][1]) == getter and n[1][2] == on:
            for q in e[3]:
                if q.done in ('break', 'ret', 'leave'):
                    c.fail("loop " + what, "%s after some entry are left out" % what, node_of(e))
            return e[1], [q for q in e[3] if q.done != 'dead'], n[1]
    c.fail("loop " + what, "not every one of %s is visited" % what)
    return None


def check(prog, tier):
    res = Result("the traversal announces and visits every symbol and inlined call once at its level; the LLVM profile writer stores every count once under the function, "
                 "line and discriminator it belongs to, and the reader adds every count back the same way; failures of the LLVM library are reported")
    dec = decoders(prog)
    traversal(prog, res)
    writer(prog, res, dec)
    reader(prog, res)
    res.assumptions = ["the LLVM sample profile library stores what it is given", "counts do not overflow 64 bits"]
    return res
