"""Value-numbering abstract interpreter (conditional constant propagation over
a linear + bit-provenance domain).  Values are hashable normal forms:

  ('k', n)                               integer constant
  ('lin', c, ((atom, coeff), ...))       c + sum coeff*atom
  ('addr', loc)                          address of an abstract location

atoms are tuples; ('bits', (b0, b1, ...)) is a word whose i-th bit is 0, 1 or
(atom, j).  At control-flow joins differing values become phi atoms, so the
result over-approximates every path without enumerating paths."""
from frontend import Node, walk
from ir import strip, args, base, cval, is_call, is_cast, cond_atoms
import heapq


def K(n):
    return ('k', int(n))


class A(tuple):
    """interned atom: hash and identity are cached, so deeply nested address
    expressions stay cheap to compare"""

    def __hash__(self):
        h = self.__dict__.get('h')
        if h is None:
            h = self.__dict__['h'] = tuple.__hash__(self)
        return h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is A:
            return self.__hash__() == o.__hash__() and tuple.__eq__(self, o)
        return tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_atoms, _order = {}, {}
SMALL = ('leblen', 'strlen', 'offsz', 'adrsz')      # quantities far below any integer width


def intern(a):
    if type(a) is A:
        return a
    x = _atoms.get(a)
    if x is None:
        x = A(a)
        _atoms[x] = x
    return x


def order(v):
    """a total order on values / atoms (order of first appearance)"""
    return _order.setdefault(v, len(_order))


_plain = {}


def untemplate(f):
    """qualified name without template arguments"""
    r = _plain.get(f)
    if r is None:
        d, r, i = 0, '', 0
        while i < len(f):
            if f.startswith('operator', i) and not d:
                j = i + 8
                while j < len(f) and f[j] in '<>=-':
                    j += 1
                r += f[i:j]
                i = j
                continue
            if f[i] == '<':
                d += 1
            elif f[i] == '>' and d:
                d -= 1
            elif not d:
                r += f[i]
            i += 1
        _plain[f] = r
    return r


def atom(a):
    return ('lin', 0, ((intern(a), 1),))


def shape_bits(s):
    """(width, signed) of an extracted type shape."""
    if not s:
        return 64, False
    if s == 'b':
        return 1, False
    if s[0] in 'us' and s[1:].isdigit():
        return int(s[1:]), s[0] == 's'
    if s[0] == 'e' and s[1:].isdigit():
        return int(s[1:]), False
    return 64, False


def wrap(n, w, sg):
    n &= (1 << w) - 1
    if sg and n >> (w - 1):
        n -= 1 << w
    return n


def atom_width(a):
    if a[0] in ('load', 'init', 'param', 'callw'):
        return a[1], a[2]
    if a[0] == 'bits':
        return len(a[1]), False
    if a[0] == 'rd':
        return 8 * a[1], False
    return 64, False


def atom_bits(a):
    w, sg = atom_width(a)
    if a[0] == 'bits':
        return list(a[1]) + [0] * (64 - len(a[1]))
    b = [(a, i) for i in range(min(w, 64))]
    top = b[-1] if sg else 0
    return b + [top] * (64 - len(b))


def bits(v):
    """64-entry bit list or None."""
    if v[0] == 'k':
        return [(v[1] >> i) & 1 for i in range(64)]
    if v[0] != 'lin':
        return None
    out = [(v[1] >> i) & 1 for i in range(64)]
    for a, c in v[2]:
        if c <= 0 or c & (c - 1):
            return None
        sh = c.bit_length() - 1
        ab = [0] * sh + atom_bits(a)[:64 - sh]
        for i in range(64):
            if ab[i] != 0:
                if out[i] != 0:
                    return None
                out[i] = ab[i]
    return out


def from_bits(b):
    b = list(b)[:64]
    if all(x in (0, 1) for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) for x in b):
        n = sum(x << i for i, x in enumerate(b))
        return K(wrap(n, 64, False))
    at = None
    for x in b:
        if isinstance(x, tuple):
            at = x[0]
            break
    if b == atom_bits(at):
        return atom(at)
    while b and b[-1] == 0:
        b.pop()
    return atom(('bits', tuple(b)))


def add(a, b, sign=1):
    if a[0] == 'addr' or b[0] == 'addr':
        if b == K(0):
            return a
        if a[0] == 'addr':
            a = atom(('addrv', a[1]))
        if b[0] == 'addr':
            b = atom(('addrv', b[1]))
    if a[0] == 'k' and b[0] == 'k':
        return K(a[1] + sign * b[1])
    ca, ta = (a[1], {}) if a[0] == 'k' else (a[1], dict(a[2]))
    cb, tb = (b[1], ()) if b[0] == 'k' else (b[1], b[2])
    for x, c in tb:
        ta[x] = ta.get(x, 0) + sign * c
        if ta[x] == 0:
            del ta[x]
    c = ca + sign * cb
    if not ta:
        return K(c)
    return ('lin', c, tuple(sorted(ta.items(), key=lambda t: order(t[0]))))


def vrange(v):
    """value range of a non-negative word from its known bits, or None"""
    if v[0] == 'k':
        return (v[1], v[1])
    x = bits(v) if v[0] == 'lin' else None
    if x is None or x[63] != 0:
        return None
    return (sum(1 << i for i, t in enumerate(x) if t == 1), sum(1 << i for i, t in enumerate(x) if t != 0))


def mul(a, b):
    if a[0] == 'k' and b[0] == 'k':
        return K(a[1] * b[1])
    if b[0] == 'k':
        a, b = b, a
    if a[0] == 'k' and b[0] == 'lin':
        if a[1] == 0:
            return K(0)
        return ('lin', b[1] * a[1], tuple((x, c * a[1]) for x, c in b[2]))
    x, y = sorted((a, b), key=order)
    return atom(('op', '*', x, y))


def binop(op, a, b, w, sg):
    if op == '+':
        r = add(a, b)
    elif op == '-':
        r = add(a, b, -1)
    elif op == '*':
        r = mul(a, b)
    elif a[0] == 'k' and b[0] == 'k':
        x, y = a[1], b[1]
        try:
            r = {'/': lambda: int(x / y) if abs(x) < 2**52 and abs(y) < 2**52 else x // y, '%': lambda: x - y * int(x / y),
                 '<<': lambda: x << min(y, 64), '>>': lambda: x >> min(y, 64), '&': lambda: x & y, '|': lambda: x | y,
                 '^': lambda: x ^ y, '==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y),
                 '<=': lambda: int(x <= y), '>': lambda: int(x > y), '>=': lambda: int(x >= y),
                 '&&': lambda: int(bool(x) and bool(y)), '||': lambda: int(bool(x) or bool(y)), ',': lambda: y}[op]()
            r = K(r)
        except (ZeroDivisionError, KeyError, ValueError):
            r = atom(('op', op, a, b))
    elif op in ('==', '!='):
        if a == b:
            return K(op == '==')
        if a[0] != 'addr' and b[0] != 'addr':
            p, q = bits(a), bits(b)
            if p is not None and q is not None and any(
                    i in (0, 1) and j in (0, 1) and i != j for i, j in zip(p, q) if not isinstance(i, tuple) and not isinstance(j, tuple)):
                return K(op == '!=')
        x, y = sorted((a, b), key=order)
        return atom(('op', op, x, y))
    elif op in ('<', '<=', '>', '>='):
        if a == b:
            return K(op in ('<=', '>='))
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        ra, rb = vrange(a), vrange(b)
        if ra and rb:
            if op == '<' and (ra[1] < rb[0] or ra[0] >= rb[1]) or op == '<=' and (ra[1] <= rb[0] or ra[0] > rb[1]):
                return K(ra[1] < rb[0] if op == '<' else ra[1] <= rb[0])
        return atom(('op', op, a, b))
    elif op in ('|', '^', '&'):
        x, y = bits(a), bits(b)
        r = None
        if x is not None and y is not None:
            o = []
            for p, q in zip(x, y):
                if op == '&':
                    z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None
                elif op == '|':
                    z = q if p == 0 else p if q == 0 else 1 if 1 in (p, q) and (p == 1 or q == 1) else p if p == q else None
                else:
                    z = q if p == 0 else p if q == 0 else None
                o.append(z)
            if None not in o:
                r = from_bits(o[:w] + [0] * (64 - w) if w < 64 else o)
        if r is None:
            p, q = sorted((a, b), key=order)
            r = atom(('op', op, p, q))
        return r
    elif op in ('<<', '>>') and b[0] == 'k':
        x = bits(a)
        n = b[1]
        if x is not None and 0 <= n < 64:
            if op == '<<':
                r = from_bits(([0] * n + x)[:w] + [0] * (64 - w))
            else:
                r = from_bits(x[n:] + [x[-1] if sg else 0] * n)
            return r
        r = atom(('op', op, a, b))
    elif op == ',':
        return b
    else:
        r = atom(('op', op, a, b))
    if r[0] == 'k':
        r = K(wrap(r[1], w, sg))
    return r


def convert(v, fs, ts):
    """integral conversion of value v from shape fs to ts"""
    if not ts or ts in ('p', 'r') or v[0] == 'addr':
        return v
    w, sg = shape_bits(ts)
    if v[0] == 'k':
        if ts == 'b':
            return K(v[1] != 0)
        return K(wrap(v[1], w, sg))
    if ts == 'b':
        x = bits(v) if v[0] != 'addr' else None
        if x is not None and 1 in [i for i in x if not isinstance(i, tuple)]:
            return K(1)
        return v
    fw, fsg = shape_bits(fs)
    if w >= fw and not (fsg and not sg and w > fw and False):
        if fsg and w > fw:
            x = bits(v)
            if x is not None and not any(isinstance(t, tuple) for t in x[fw:]):
                top = x[fw - 1]
                return from_bits(x[:fw] + [top] * (w - fw) + [0 if not sg else top] * (64 - w))
        elif w == fw and w < 64 and fsg != sg:
            x = bits(v)
            if x is not None:
                return from_bits(x[:w] + [x[w - 1] if sg else 0] * (64 - w))
        return v
    x = bits(v)
    if w >= 32 and v[0] == 'lin' and all(a[0] in SMALL and 0 < c < 4096 for a, c in v[2]):
        return v
    if x is None:
        return atom(('trunc', w, sg, v))
    top = x[w - 1] if sg else 0
    return from_bits(x[:w] + [top] * (64 - w))


class Interp:
    """intercept(fn, call, fname, argvals, interp, state) -> value | None"""

    def __init__(self, prog, consts=None, intercept=None, inline=None, max_depth=5, unroll=True, assume=None):
        self.unroll = unroll
        self.ctor_hook = None
        self.wshape = None      # shape of the place an assignment writes
        self.assume = assume or (lambda v: None)
        self.prog = prog
        self.consts = consts or (lambda loc: None)
        self.intercept = intercept or (lambda *a: None)
        self.inline = inline or (lambda F: True)
        self.max_depth = max_depth
        self.nframe = 0
        self.events = {}

    # ---- store
    def load(self, st, loc, shape):
        c = self.consts(loc)
        if c is not None:
            return c if isinstance(c, tuple) else K(c)
        if loc in st:
            return st[loc]
        w, sg = shape_bits(shape)
        if loc[0] == '*':
            return atom(('load', w, sg, loc[1]))
        return atom(('init', w, sg, loc))

    def store(self, st, loc, v):
        for k in [k for k in st if k[0] == 'f' and self._under(k, loc)]:
            del st[k]
        st[loc] = v

    def _under(self, k, loc):
        while k[0] == 'f':
            k = k[1]
            if k == loc:
                return True
        return False

    # ---- evaluation
    def lval(self, st, n, fr):
        n0 = n
        while is_cast(n) and n.ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast') or n.k in (
                'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            n = n.ch[0]
        if n.k == 'DeclRefExpr':
            if n.dk in ('Var', 'ParmVar'):
                r = st.get(('ref', n.d, fr))
                if r is not None:
                    return r
                if n.fn is not None and n.d in n.fn.vars or n.dk == 'ParmVar':
                    return ('v', n.d, fr)
                return ('g', n.d)
            if n.dk == 'Field':
                return ('g', n.d)
            return ('g', n.d)
        if n.k == 'MemberExpr':
            if not n.ch:
                return ('g', n.d)
            if n.arrow:
                a = self.val(st, n.ch[0], fr)
                b = a[1] if a[0] == 'addr' else ('*', a)
            else:
                b = self.lval(st, n.ch[0], fr)
            return ('f', b, n.n)
        if n.k == 'UnaryOperator' and n.op == '*':
            a = self.val(st, n.ch[0], fr)
            return a[1] if a[0] == 'addr' else ('*', a)
        if n.k == 'ArraySubscriptExpr':
            a = self.val(st, n.ch[0], fr)
            i = self.val(st, n.ch[1], fr)
            w, _ = shape_bits(n.s)
            sz = max(1, w // 8)
            if a[0] == 'addr' and i == K(0):
                return a[1]
            return ('*', add(a, mul(i, K(sz))))
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.op == '=' or n.op.endswith('=')):
            return self.lval(st, n.ch[0], fr)
        if n.k == 'UnaryOperator' and n.op in ('++', '--') and not n.post:
            return self.lval(st, n.ch[0], fr)
        if n.k == 'ConditionalOperator':
            c = self.val(st, n.ch[0], fr)
            if c[0] == 'k':
                return self.lval(st, n.ch[1 if c[1] else 2], fr)
        v = st.get(('n', n['i'], fr)) if 'i' in n else None
        if v is not None and v[0] == 'lref':
            return v[1]
        return ('t', n.get('i'), fr)

    def val(self, st, n, fr):
        """value of (already evaluated or side-effect free) expression n"""
        if n is None:
            return atom(('none',))
        k = ('n', n.get('i'), fr)
        if k in st:
            v = st[k]
            if v[0] == 'lref':
                return self.load(st, v[1], n.s)
            return v
        return self.compute(st, n, fr)

    def compute(self, st, n, fr):
        k = n.k
        if n.get('cv') is not None and k not in ('CaseStmt',):
            return K(n.cv)
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return K(0)
        if k == 'CXXThisExpr':
            return st.get(('this', fr), ('addr', ('o', 'this')))
        if is_cast(n):
            c = n.ch[0]
            if n.ck == 'LValueToRValue':
                return self.load(st, self.lval(st, c, fr), n.s)
            if n.ck in ('ArrayToPointerDecay',):
                return ('addr', self.lval(st, c, fr))
            if n.ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
                return atom(('fn', c.get('d') or c.get('f') or '?'))
            v = self.val(st, c, fr)
            if n.ck in ('NullToPointer', 'NullToMemberPointer'):
                return K(0)
            if n.ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
                return convert(v, c.s, n.s)
            return v
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                 'CXXRewrittenBinaryOperator', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr'):
            return self.val(st, n.ch[0], fr) if n.ch else K(0)
        if k in ('DeclRefExpr',):
            if n.dk in ('Function', 'CXXMethod'):
                return atom(('fn', n.q or n.d))
            return self.load(st, self.lval(st, n, fr), n.s)
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.load(st, self.lval(st, n, fr), n.s)
        if k == 'UnaryOperator':
            c = n.ch[0]
            if n.op == '&':
                if c.k == 'DeclRefExpr' and c.dk in ('Function', 'CXXMethod'):
                    return atom(('fn', c.q or c.d))
                l = self.lval(st, c, fr)
                if l[0] == '*':
                    return l[1]
                return ('addr', l)
            if n.op in ('++', '--'):
                l = self.lval(st, c, fr)
                old = self.load(st, l, c.s)
                new = convert(add(old, K(1 if n.op == '++' else -1)), n.s if n.s != 'p' else None, n.s) \
                    if n.s != 'p' else add(old, K(1 if n.op == '++' else -1))
                self.store(st, l, new)
                return old if n.post else new
            if n.op == '*':
                return self.load(st, self.lval(st, n, fr), n.s)
            v = self.val(st, c, fr)
            if n.op == '!':
                if v[0] == 'k':
                    return K(not v[1])
                return atom(('op', '!', v))
            if n.op == '-':
                return add(K(0), v, -1)
            if n.op == '+':
                return v
            if n.op == '~' and v[0] == 'k':
                w, sg = shape_bits(n.s)
                return K(wrap(~v[1], w, sg))
            return atom(('op', n.op, v))
        if k == 'BinaryOperator':
            if n.op == '=':
                v = self.val(st, n.ch[1], fr)
                l = self.lval(st, n.ch[0], fr)
                self.wshape = n.ch[0].s
                self.store(st, l, v)
                return v
            a, b = self.val(st, n.ch[0], fr), self.val(st, n.ch[1], fr)
            if n.op == ',':
                return b
            if n.op in ('.*', '->*'):
                return atom(('op', n.op, a, b))
            w, sg = shape_bits(n.s)
            if n.op in ('==', '!=', '<', '<=', '>', '>='):
                w, sg = 64, True
            if n.op in ('+', '-') and n.s == 'p':
                es = self.elem(n)
                if b[0] != 'addr' and n.ch[0].s == 'p':
                    b = mul(b, K(es))
                return binop(n.op, a, b, 64, False)
            return binop(n.op, a, b, w, sg)
        if k == 'CompoundAssignOperator':
            l = self.lval(st, n.ch[0], fr)
            a, b = self.load(st, l, n.ch[0].s), self.val(st, n.ch[1], fr)
            if n.s == 'p':
                b = mul(b, K(self.elem(n)))
                v = binop(n.op[:-1], a, b, 64, False)
            else:
                # computed in the promoted type, stored in the target type
                w, sg = shape_bits(n.ch[0].s)
                v = binop(n.op[:-1], a, b, max(w, shape_bits(n.ch[1].s)[0]), sg)
                if v[0] == 'k':
                    v = K(wrap(v[1], w, sg))
                elif shape_bits(n.ch[1].s)[0] > w:
                    v = convert(v, n.ch[1].s, n.ch[0].s)
            self.store(st, l, v)
            return v
        if k == 'ConditionalOperator':
            c = self.val(st, n.ch[0], fr)
            t = self.decide(c)
            if t is not None:
                return self.val(st, n.ch[1 if t else 2], fr)
            a, b = self.val(st, n.ch[1], fr), self.val(st, n.ch[2], fr)
            return a if a == b else atom(('ite', c, a, b))
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if n.copy and len(n.ch) == 1:
                return self.val(st, n.ch[0], fr)
            if self.ctor_hook is not None:
                r = self.ctor_hook(self, n, [self.val(st, c, fr) for c in n.ch], st, fr)
                if r is not None:
                    return r
            return atom(('ctor', n.cls or '', tuple(self.val(st, c, fr) for c in n.ch)))
        if is_call(n):
            return self.call(st, n, fr)
        if k == 'StringLiteral':
            return ('addr', ('str', n.get('str') or ''))
        if k == 'InitListExpr':
            if len(n.ch) == 1 and not n.rec:
                return self.val(st, n.ch[0], fr)
            return atom(('ilist', n.t or '', tuple(self.val(st, c, fr) for c in n.ch if c is not None)))
        if k == 'CXXNewExpr':
            return ('addr', ('new', n.get('i'), fr))
        return atom(('expr', k, n.get('i'), fr))

    def elem(self, n):
        t = (n.t or '').replace('const', '').replace('*', '', 1).strip()
        return {'char': 1, 'unsigned char': 1, 'signed char': 1, 'unsigned short': 2, 'short': 2, 'int': 4,
                'unsigned int': 4}.get(t, 8 if 'long' in t else 1)

    def call(self, st, n, fr):
        av = [self.val(st, a, fr) for a in args(n)] if n.k != 'CXXOperatorCallExpr' else \
             [self.val(st, a, fr) for a in n.ch[1:]]
        if n.k == 'CXXMemberCallExpr' and n.ch[0].k != 'MemberExpr' and n.ch[0].k in ('BinaryOperator', 'ParenExpr'):
            m = n.ch[0]
            while m.k == 'ParenExpr':
                m = m.ch[0]
            if m.k == 'BinaryOperator' and m.op in ('.*', '->*'):
                f = self.val(st, m.ch[1], fr)
                if f[0] == 'lin' and len(f[2]) == 1 and f[2][0][0][0] == 'fn':
                    gs = self.prog.by_q.get(f[2][0][0][1], [])
                    if gs and fr.count('/') < self.max_depth:
                        o = self.val(st, m.ch[0], fr)
                        return self.enter(st, gs[0], n, av, o if o[0] == 'addr' else None, fr)
        fname = untemplate(n.f or '')
        r = self.intercept(self, n, fname, av, st, fr)
        if r is not None:
            return r
        obj = None
        if n.k == 'CXXMemberCallExpr':
            m = n.ch[0]
            if m.k == 'MemberExpr':
                if not m.ch:
                    obj = st.get(('this', fr), ('addr', ('o', 'this')))
                elif m.arrow:
                    obj = self.val(st, m.ch[0], fr)
                else:
                    obj = ('addr', self.lval(st, m.ch[0], fr))
            else:   # pointer to member
                callee = self.val(st, m, fr)
                w, sg = shape_bits(n.s)
                return atom(('callw', w, sg, 'ptm', callee, tuple(av)))
        if n.f in ('std::move', 'std::forward', '__builtin_expect') and av:
            return av[0]
        depth = fr.count('/')
        if n.k in ('CallExpr', 'CXXMemberCallExpr') and not n.virt and depth < self.max_depth:
            fs = self.prog.callee(n, n.fn)
            if len(fs) >= 1 and fs[0].blocks and self.inline(fs[0]) and not fs[0].d.get('ctor'):
                return self.enter(st, fs[0], n, av, obj, fr)
        # opaque
        w, sg = shape_bits(n.s)
        pure = bool(n.mconst) or not n.get('pm') or all(p in ('v', 'cr', 'cp') for p in n.pm)
        ident = ('callw', w, sg, fname, obj, tuple(av)) if pure else ('callw', w, sg, fname, obj, tuple(av), n.get('i'), fr)
        r = atom(ident)
        pm = n.get('pm') or []
        a = args(n)
        for i, x in enumerate(a):
            m = pm[i] if i < len(pm) else 'v'
            v = av[i] if i < len(av) else None
            if v is not None and v[0] == 'addr' and m in ('p', 'v'):
                self.store(st, v[1], atom(('out', ident, i)))
            elif m == 'r':
                self.store(st, self.lval(st, x, fr), atom(('out', ident, i)))
        return r

    def enter(self, st, F, n, av, obj, fr):
        self.nframe += 1
        sub = fr + '/' + str(n.get('i'))
        loc = dict(st)
        if obj is not None:
            loc[('this', sub)] = obj
        a = args(n)
        for i, p in enumerate(F.params):
            if i < len(av):
                if p.get('ref'):
                    loc[('ref', p['d'], sub)] = self.lval(st, a[i], fr) if a[i].get('lv') or strip(a[i]).k in (
                        'DeclRefExpr', 'MemberExpr') else ('t', a[i].get('i'), fr)
                    if loc[('ref', p['d'], sub)][0] == 't':
                        loc[loc[('ref', p['d'], sub)]] = av[i]
                else:
                    loc[('v', p['d'], sub)] = av[i]
        rets, out = self.flow(F, loc, sub)
        st.clear()
        if out is None:
            st[('dead',)] = K(1)
            return atom(('noret',))
        st.update({k: v for k, v in out.items() if not (k[0] in ('n', 'v', 'ref', 't') and str(k[-1]).startswith(sub))
                   and k != ('this', sub)})
        vs = []
        for v in rets:
            if v not in vs:
                vs.append(v)
        if len(vs) == 1:
            return vs[0]
        if not vs:
            return atom(('void',))
        return atom(('phi', F.key, sub, 'ret'))

    # ---- flow
    def join(self, a, b, blk, fr):
        if a is None:
            return dict(b), True
        ch = False
        out = dict(a)
        for k, v in b.items():
            if k not in out:
                if k[0] in ('n', 'ref', 'this', 't'):
                    out[k] = v
                    ch = True
                else:
                    # untouched on the other side: initial value
                    p = atom(('phi', blk, fr, k))
                    if out.get(k) != p:
                        out[k] = p
                        ch = True
            elif out[k] != v:
                p = atom(('phi', blk, fr, k))
                if out[k] != p:
                    out[k] = p
                    ch = True
        for k in a:
            if k not in b and k[0] not in ('n', 'ref', 'this', 't'):
                p = atom(('phi', blk, fr, k))
                if out[k] != p:
                    out[k] = p
                    ch = True
        return out, ch

    def flow(self, F, st0, fr):
        """-> (list of return values, exit state or None)"""
        B = F.blocks
        rets = {}
        cur, st, steps, free = F.entry, st0, 0, True
        # prefix on which every branch is decided by constants: loops on it are
        # unrolled instead of merged
        while self.unroll and steps < 3000:
            if cur == F.exit:
                return list(rets.values()), st
            steps += 1
            s2 = dict(st)
            r2 = dict(rets)
            succ = self.step(F, B[cur], s2, fr, r2)
            succ = self.live(F, succ)
            if len(succ) == 0:
                return list(r2.values()), None
            if len(succ) > 1:
                break
            st, rets, cur = s2, r2, succ[0]
        # the state entering a block is the join of the latest states of its
        # incoming edges; a place that once differed stays a phi
        inn = {}
        edges = {cur: {None: st}}
        sticky = {}
        order = _rpo(F)
        wl = [(0, cur)]
        inq = {cur}
        it = 0
        while wl:
            _, b = heapq.heappop(wl)
            inq.discard(b)
            it += 1
            if it > 5000:
                raise RuntimeError('vn diverges in ' + F.key)
            es = edges[b]
            j = None
            for e in sorted(es, key=lambda x: -1 if x is None else order.get(x, 0)):
                j = es[e] if j is None else self.join(j, es[e], b, fr)[0]
            if len(es) > 1:
                keep = sticky.setdefault(b, {})
                j = dict(j)
                j.update(keep)
                for k, v in j.items():
                    if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0] == ('phi', b, fr, k):
                        keep[k] = v
            if b in inn and inn[b] == j:
                continue
            inn[b] = j
            st = dict(j)
            for t in self.step(F, B[b], st, fr, rets):
                if t is None:
                    continue
                es = edges.setdefault(t, {})
                if es.get(b) != st or t not in inn:
                    es[b] = dict(st)
                    if t not in inq:
                        inq.add(t)
                        heapq.heappush(wl, (order.get(t, 0), t))
        self.last_inn = inn
        return list(rets.values()), inn.get(F.exit)

    def step(self, F, blk, st, fr, rets):
        """transfer one block in place; -> feasible successors"""
        B = F.blocks
        for e in blk.elems:
            if 'k' not in e:
                continue
            self.exec(st, e, fr, F, rets)
            if ('dead',) in st:
                return []
        if blk.noret:
            return []
        succ = list(blk.succ)
        if blk.tk == 'SwitchStmt' and blk.cond is not None:
            v = self.val(st, blk.cond, fr)
            if v[0] == 'k':
                hit = [s for s in blk.succ if s is not None and _case(B[s].label, v[1])]
                if hit:
                    return [hit[0]]
                return [s for s in blk.succ if s is not None and not (
                    B[s].label is not None and B[s].label.k == 'CaseStmt')]
        elif blk.cond is not None and len(blk.succ) == 2 and not blk.tdb:
            v = self.decide(self.val(st, blk.cond, fr))
            if v is not None:
                return [blk.succ[0 if v else 1]]
        return succ

    def live(self, F, succ):
        """successors that do not immediately abort"""
        B = F.blocks
        ok = [t for t in succ if t is not None and not B[t].noret]
        return ok or [t for t in succ if t is not None]

    def decide(self, v):
        """truth of an abstract value: True / False / None"""
        if v[0] == 'k':
            return bool(v[1])
        if v[0] == 'addr':
            return True
        x = bits(v)
        if x is not None and 1 in [i for i in x if not isinstance(i, tuple)]:
            return True
        return self.assume(v)

    def exec(self, st, e, fr, F, rets):
        k = e.k
        if k == 'DeclStmt':
            for v in e.ch:
                if v.k != 'VarDecl':
                    continue
                i = v.get('init')
                if isinstance(i, Node):
                    if v.ref:
                        st[('ref', v.d, fr)] = self.lval(st, i, fr)
                    else:
                        x = self.val(st, i, fr)
                        self.store(st, ('v', v.d, fr), x)
                else:
                    self.store(st, ('v', v.d, fr), atom(('undef', v.d)))
            return
        if k == 'CtorInit':
            if e.get('m') and isinstance(e.get('init'), Node):
                th = st.get(('this', fr), ('addr', ('o', 'this')))
                b = th[1] if th[0] == 'addr' else ('*', th)
                self.store(st, ('f', b, e.m), self.val(st, e['init'], fr))
            return
        if k == 'ReturnStmt':
            v = self.val(st, e.ch[0], fr) if e.ch else atom(('void',))
            rets[e['i']] = v
            return
        v = self.compute(st, e, fr)
        if 'i' in e and k not in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') and not (
                k == 'UnaryOperator' and e.op == '*'):
            st[('n', e['i'], fr)] = v
        if ('dead',) in st:
            return


def _case(lab, v):
    while lab is not None and lab.k == 'CaseStmt':
        if lab.get('cv') is not None and int(lab.cv) == v:
            return True
        # stacked labels: case A: case B: stmt
        nxt = [c for c in lab.ch if c is not None and c.k == 'CaseStmt']
        lab = nxt[0] if nxt else None
    return False


def _rpo(F):
    B = F.blocks
    seen, order = {F.entry}, []
    st = [(F.entry, iter([s for s in B[F.entry].succ if s is not None]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter([x for x in B[s].succ if x is not None])))
                break
        else:
            order.append(b)
            st.pop()
    return {b: i for i, b in enumerate(reversed(order))}


def run(interp, F, st=None, params=None):
    st = dict(st or {})
    for p in F.params:
        if not p.get('ref'):
            w, sg = shape_bits(p['s'])
            st.setdefault(('v', p['d'], 'f'), (params or {}).get(p['n'], atom(('param', w, sg, p['n']))))
    return interp.flow(F, st, 'f')


def show_val(v):
    if v[0] == 'k':
        return str(v[1])
    if v[0] == 'addr':
        return '&' + show_loc(v[1])
    parts = []
    for a, c in v[2]:
        s = show_atom(a)
        parts.append(s if c == 1 else '%d*%s' % (c, s))
    if v[1] or not parts:
        parts.append(str(v[1]))
    return ' + '.join(parts)


def show_loc(l):
    if l[0] in ('v', 'g', 'o', 'str'):
        return str(l[1]).split('#')[0]
    if l[0] == 'f':
        return show_loc(l[1]) + '.' + l[2]
    if l[0] == '*':
        return '[' + show_val(l[1]) + ']'
    return str(l[0])


def show_atom(a):
    if a[0] == 'param':
        return a[3]
    if a[0] == 'load':
        return ('s' if a[2] else 'u') + '%d[%s]' % (a[1], show_val(a[3]))
    if a[0] == 'init':
        return show_loc(a[3])
    if a[0] == 'callw':
        ar = a[5] if len(a) > 5 and isinstance(a[5], tuple) else ()
        return '%s(%s)' % (str(a[3]).split('::')[-1], ', '.join(show_val(x) for x in ar if isinstance(x, tuple) and x and x[0] in ('k', 'lin', 'addr')))
    if a[0] == 'op':
        return '(' + (' %s ' % a[1]).join(show_val(x) for x in a[2:]) + ')'
    if a[0] == 'bits':
        return 'bits<' + ','.join(str(x) if not isinstance(x, tuple) else '%s:%d' % (show_atom(x[0]), x[1]) for x in a[1]) + '>'
    if a[0] == 'rd':
        return 'read%d(%s)' % (a[1], show_val(a[2]))
    if a[0] in ('uleb', 'sleb', 'leblen', 'off', 'adr', 'strlen', 'cstr', 'rec'):
        return '%s(%s)' % (a[0], ', '.join(show_val(x) for x in a[1:]))
    if a[0] in ('offsz', 'adrsz'):
        return a[0]
    if a[0] == 'sym':
        return str(a[1]) + ('(%s)' % ', '.join(show_val(x) for x in a[2:]) if len(a) > 2 else '')
    return a[0]
