"""Case splits over the grammars of wire.py: partial evaluation of terms under
assumed values, and the paths of a function under such an assumption."""
from wire import OPS, K, terms


def simp(t, env):
    """t with the values env assumes filled in and every decided choice resolved"""
    if not isinstance(t, tuple) or not t:
        return t
    v = env(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'op':
        o = t[1]
        if o in ('phi', '?') and len(t[2]) == 3:
            c = truth(simp(t[2][0], env))
            if c is not None:
                return simp(t[2][1 if c else 2], env)
        a = tuple(simp(x, env) for x in t[2])
        r = fold(o, a)
        if r is not None:
            return r
        r = ('op', o, a)
        v = env(r)
        return r if v is None else v
    if k in ('k', 'str', 'param', 'this', 'var', 'idx', 'any', 'g', 'flag'):
        return t
    r = tuple(simp(x, env) if isinstance(x, tuple) and x and isinstance(x[0], str) else
              tuple(simp(y, env) for y in x) if isinstance(x, tuple) else x for x in t)
    if r != t:
        v = env(r)
        if v is not None:
            return v
        if r[0] == 'm' and isinstance(r[1], tuple) and r[1][:1] == ('op',) and r[1][1] == 'phi':
            return r
    return r


def truth(t):
    return bool(t[1]) if t[0] == 'k' else True if t[0] in ('new', 'str', 'lambda') else None


def fold(o, a):
    if o in OPS and len(a) == 2:
        x, y = a
        if x[0] == 'k' and y[0] == 'k':
            return K(OPS[o](x[1], y[1]))
        if o == '&&':
            if x == K(0) or y == K(0):
                return K(0)
            if truth(x):
                return y
            if truth(y):
                return x
        if o == '||':
            if truth(x) or truth(y):
                return K(1)
            if x == K(0):
                return y
            if y == K(0):
                return x
        if o in ('+', '-') and y == K(0) or o == '*' and y == K(1):
            return x
        if o == '+' and x == K(0):
            return y
        if o == '-' and x == y:
            return K(0)
        if o in ('==', '!=') and x == y and x[0] in ('param', 'm', 'idx'):
            return K(o == '==')
        if o == '-' and x[0] == 'op' and x[1] == '-' and x[2][0] == y:
            return None
    if o == '!' and truth(a[0]) is not None:
        return K(not truth(a[0]))
    if o == '!' and a[0][0] == 'op' and a[0][1] in NEG:
        return ('op', NEG[a[0][1]], a[0][2])
    if o == '!' and a[0][0] == 'op' and a[0][1] == '!':
        return a[0][2][0]
    if o in ('/', '%') and len(a) == 2 and a[0][0] == 'k' and a[1][0] == 'k' and a[1][1]:
        return K(a[0][1] // a[1][1] if o == '/' else a[0][1] % a[1][1])
    if o in ('phi', '?') and len(a) == 3 and a[1] == a[2]:
        return a[1]
    if o == '~' and a[0][0] == 'k':
        return K(~a[0][1])
    if o == '-' and len(a) == 1 and a[0][0] == 'k':
        return K(-a[0][1])
    return None


BOOL = ('==', '!=', '<', '>', '<=', '>=', '!', '&&', '||')
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def negated(c):
    n = fold('!', (c,))
    return n if n is not None else ('op', '!', (c,))


def conj(c):
    """a condition as the list of what it requires"""
    if c[0] == 'op' and c[1] == '&&':
        return conj(c[2][0]) + conj(c[2][1])
    if c[0] == 'op' and c[1] == '!' and c[2][0][0] == 'op' and c[2][0][1] == '||':
        return conj(negated(c[2][0][2][0])) + conj(negated(c[2][0][2][1]))
    return [c]


class Path:
    def __init__(self, conds=(), effects=(), ret=None, done=None):
        self.conds, self.effects, self.ret, self.done = conds, effects, ret, done


def paths(items, env, limit=4000):
    """the paths through a grammar; loops stay as single effects ('loop', uid, count, [Path of one iteration], node, F)"""
    out = [Path()]
    for i in items:
        nxt = []
        for p in out:
            if p.done:
                nxt.append(p)
                continue
            nxt += step(p, i, env, limit)
        out = nxt
        if len(out) > limit:
            raise OverflowError
    return out


def known(c, conds):
    for k in conds:
        if k == c:
            return True
        if k == negated(c) or negated(k) == c:
            return False
    return None


def assume(env, conds):
    def e(t):
        v = env(t)
        if v is None and t[0] == 'op' and conds and t[1] in BOOL:
            b = known(t, conds)
            if b is not None:
                return K(b)
        return v
    return e


def step(p, i, env, limit):
    e = assume(env, p.conds)
    if i[0] == 'alt':
        c = simp(i[1], e)
        t = truth(c)
        out = []
        for side, want in ((i[2], True), (i[3], False)):
            if t is not None and t != want:
                continue
            cs = p.conds if t is not None else p.conds + tuple(conj(c if want else negated(c)))
            ex = i[6:] and i[6 if want else 7]
            for q in paths(side, assume(env, cs), limit):
                out.append(Path(cs + tuple(x for x in q.conds if x not in cs), p.effects + q.effects, q.ret, q.done or (ex if ex in ('ret', 'dead', 'cont', 'break') else None)))
        return out
    if i[0] == 'ret':
        return [Path(p.conds, p.effects, simp(i[1], e) if i[1] is not None else None, 'ret')]
    if i[0] == 'leave':
        return [Path(p.conds, p.effects, simp(i[1], e) if i[1] is not None else None, 'ret')]
    if i[0] == 'loop':
        body = paths(i[3], e, limit)
        lp = ('loop', i[1], simp(i[2], e) if i[2] is not None else None, body, i[5], i[6])
        return [Path(p.conds, p.effects + (lp,), p.ret, p.done)]
    if i[0] in ('set', 'sink', 'check', 'tok', 'setflag'):
        return [Path(p.conds, p.effects + (tuple(simp(x, e) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                                 tuple(simp(y, e) for y in x) if isinstance(x, tuple) else x for x in i),), p.ret, p.done)]
    return [Path(p.conds, p.effects + (i,), p.ret, p.done)]


def linear(t):
    """t as {monomial: coefficient}; anything that is not a sum stays one monomial"""
    if t[0] == 'k':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'op' and t[1] in ('+', '-') and len(t[2]) == 2:
        a, b = linear(t[2][0]), linear(t[2][1])
        for m, c in b.items():
            a[m] = a.get(m, 0) + (c if t[1] == '+' else -c)
        return {m: c for m, c in a.items() if c}
    if t[0] == 'op' and t[1] == '*' and len(t[2]) == 2:
        a, b = linear(t[2][0]), linear(t[2][1])
        o = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=str))
                o[k] = o.get(k, 0) + c * d
        return {m: c for m, c in o.items() if c}
    if t[0] == 'op' and t[1] == '<<' and t[2][1][0] == 'k':
        return {m: c << t[2][1][1] for m, c in linear(t[2][0]).items()}
    if t[0] == 'op' and t[1] in ('/', '%'):
        t = ('op', t[1], tuple(norm(x) for x in t[2]))
    return {(t,): 1}


def norm(t):
    """canonical form of a term up to linear arithmetic"""
    l = linear(t)
    if list(l) == [()]:
        return K(l[()])
    if not l:
        return K(0)
    if len(l) == 1 and list(l.values()) == [1] and len(list(l)[0]) == 1:
        return list(l)[0][0]
    return ('lin', tuple(sorted(l.items(), key=str)))
