"""What the GCC-profile encoder writes, the decoder reads back."""
import vn
from vn import K, atom, add, mul, Interp, bits
from core import Result
from dwarf import short, depends
from checks.p03 import logic

LIBC = ("strlen", "memcpy", "memmove", "fread", "fwrite", "realloc", "fclose", "fopen", "setbuf", "fflush")


class Run:
    """one encoder or decoder call"""

    def __init__(self, prog, F, version=2, libc=None, params=None, force=None):
        self.events, self.conds, self.version = [], [], version
        self.libc = libc or {}
        self.force = force
        self.writes = []
        ip = Interp(prog, intercept=self.intercept, assume=lambda v: logic(v, self.leaf))
        orig = ip.store

        def store(st, loc, v):
            if loc[0] == '*' or loc[0] == 'f' and loc[1][0] == '*':
                self.writes.append((loc, v, vn.shape_bits(ip.wshape)[0] // 8 if ip.wshape else 4))
            orig(st, loc, v)
        ip.store = store
        self.rets, out = vn.run(ip, F, params=params)
        self.out = out or {}

    def intercept(self, ip, n, fname, av, st, fr):
        if fname == "absl::GetFlag" or short(n) == "GetFlag":
            return K(self.version)
        if fname in LIBC or fname.startswith("std::") and fname[5:] in LIBC:
            f = fname.split("::")[-1]
            self.events.append((f, tuple(av), n))
            if f in self.libc:
                return self.libc[f]
            if f in ("memcpy", "memmove") and len(av) == 3 and av[2] in (K(4), K(8)):
                sh = "u%d" % (8 * av[2][1])
                if av[1][0] == 'addr' and av[0][0] == 'lin':
                    self.writes.append((('*', av[0]), ip.load(st, av[1][1], sh), av[2][1]))
                elif av[0][0] == 'addr' and av[1][0] == 'lin':
                    ip.store(st, av[0][1], atom(('load', 8 * av[2][1], False, av[1])))
            if f in ("memcpy", "memmove", "setbuf", "fflush"):
                return av[0]
            return atom(('callw', 64 if f in ("strlen", "realloc", "fread", "fopen", "fwrite") else 32, False, f, None, tuple(av)))
        return None

    def leaf(self, v):
        if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and v[2][0][0][1] in ('<', '<=') and 'k' in (v[2][0][0][2][0], v[2][0][0][3][0]):
            self.conds.append(v[2][0][0])
        if self.force is not None:
            t = self.force(v)
            if t is not None:
                return t
        if v[0] == 'addr':
            return True
        if place(v):
            return True
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            if a[0] == 'op' and len(a) == 4:
                if a[1] in ('==', '!=') and K(0) in a[2:] and place(a[3] if a[2] == K(0) else a[2]):
                    return a[1] == '!='
                if a[1] in ('<', '<=', '>', '>='):
                    x, y = a[2], a[3]
                if a[1] in ('==', '!=') and K(0) in a[2:]:
                    x = a[3] if a[2] == K(0) else a[2]
                    if depends(x, lambda t: t[0] in ('load', 'param')) and not depends(x, lambda t: t[0] == 'op'):
                        return a[1] == '!='
            elif a[0] in ('load', 'param'):
                return True
        return None


def place(v):
    """a position inside the buffer"""
    return v[0] == 'lin' and len(v[2]) >= 2 and any(a[0] == 'init' and a[1] == 64 and fields(a[3]) and c == 1 for a, c in v[2])


def fields(loc):
    return loc[0] == 'f' and loc[1][0] == 'g'


def ev(v, env):
    """closed form -> int, env: atom -> int"""
    if v[0] == 'k':
        return v[1]
    if v[0] != 'lin':
        raise KeyError(v)
    t = v[1]
    for a, c in v[2]:
        t += c * ev_atom(a, env)
    return t


def ev_atom(a, env):
    for k, x in env:
        if k(a):
            return x
    if a[0] == 'bits':
        s = 0
        for i, b in enumerate(a[1]):
            if isinstance(b, tuple):
                s |= ((ev_atom(b[0], env) >> b[1]) & 1) << i
            else:
                s |= b << i
        return s
    if a[0] == 'op' and len(a) == 4:
        x, y = ev(a[2], env), ev(a[3], env)
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<<': lambda: x << y, '>>': lambda: x >> y, '|': lambda: x | y,
                '&': lambda: x & y, '/': lambda: x // y, '%': lambda: x % y, '^': lambda: x ^ y, '<': lambda: int(x < y), '<=': lambda: int(x <= y),
                '>': lambda: int(x > y), '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y)}[a[1]]()
    if a[0] == 'ite':
        return ev(a[2] if ev(a[1], env) else a[3], env)
    if a[0] in ('trunc', 'cast', 'sext', 'zext') and len(a) > 1:
        return ev([x for x in a[1:] if isinstance(x, tuple)][0], env)
    raise KeyError(a)


def one(prog, name, r):
    fs = [F for F in prog.functions if F.q == name and F.blocks]
    r.require(bool(fs), name)
    return fs[0]


LENS = list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 1021, 1022, 1023, 1024, 8191, 16381]


def is_strlen(a):
    return a[0] == 'callw' and a[3] == 'strlen'


class State:
    """buffer, position and end of data as fields of the global state"""

    def __init__(self, prog, r):
        W = one(prog, "gcov_write_unsigned", r)
        for t in (True, False):
            w = Run(prog, W, force=lambda v: t if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and
                    v[2][0][0][1] in ('<', '<=') and all(x[0] != 'k' for x in v[2][0][0][2:]) else None)
            if not any(f == "realloc" for f, av, n in w.events):
                break
        pos = [k for k, v in w.out.items() if fields(k) and v == add(init(k, 32), K(4))]
        r.require(len(pos) == 1, "write position")
        self.pos = pos[0]
        R = one(prog, "gcov_read_unsigned", r)
        base = set()
        for loc, v, wd in w.writes:
            depends(loc, lambda a: base.add(a[3]) if a[0] == 'init' and fields(a[3]) and a[3] != self.pos else False)
        r.require(len(base) == 1, "write buffer")
        self.buf = list(base)[0]


def init(loc, w):
    return atom(('init', w, False, loc))


def check(prog, tier):
    r = Result("abstract interpretation of the encoder and decoder primitives down to the buffer: bytes stored, position advanced, "
               "value rebuilt and buffer management are compared symbolically for every value, string length, format version and fill state")
    S = State(prog, r)
    at = add(init(S.buf, 64), init(S.pos, 32))

    def room(grow):
        """decisions on comparisons between what is asked for and what is there"""
        def f(v):
            if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and len(v[2][0][0]) == 4 and v[2][0][0][1] in ('<', '<='):
                a = v[2][0][0]
                x, y = a[2], a[3]
                if not depends(v, lambda t: t[0] == 'init' and t[3] == S.pos or t[0] == 'callw' and t[3] == 'fread'):
                    return None
                env = [(lambda t: t[0] == 'init' and t[3] == S.pos, 3), (is_strlen, 5), (lambda t: t[0] == 'callw' and t[3] == 'fread', 10 ** 6),
                       (lambda t: t[0] == 'init' and fields(t[3]) and t[3] != S.pos, 3 if grow else 10 ** 6), (lambda t: t[0] in ('param', 'load'), 11)]
                try:
                    return ev(x, env) < ev(y, env) if a[1] == '<' else ev(x, env) <= ev(y, env)
                except KeyError:
                    return None
            return None
        return f

    # numbers
    for kind, nbytes in (("unsigned", 4), ("counter", 8)):
        W, R = one(prog, "gcov_write_" + kind, r), one(prog, "gcov_read_" + kind, r)
        w = Run(prog, W, force=room(False))
        stored = image(w, at, nbytes, W.params[0]["n"])
        r.count(obligations=3)
        if stored is None:
            r.add("%s|bytes" % W.q, W.where(), "%s: does not store each byte of its value once within %d bytes" % (W.q, nbytes))
            continue
        adv = w.out.get(S.pos)
        if adv != add(init(S.pos, 32), K(nbytes)):
            r.add("%s|advance" % W.q, W.where(), "%s: the write position does not advance by %d" % (W.q, nbytes))
        rd = Run(prog, R, force=room(False))
        vals = [v for v in rd.rets if v != K(0)]
        got = rebuild(vals[0], at, stored) if len(set(vals)) == 1 else None
        if got != [(W.params[0]["n"], i) for i in range(8 * nbytes)]:
            r.add("%s|value" % R.q, R.where(), "%s: does not rebuild the value %s stored (bit %s)" % (
                R.q, W.q, "?" if got is None else next((i for i, x in enumerate(got) if x != (W.params[0]["n"], i)), "?")))
        if rd.out.get(S.pos) != add(init(S.pos, 32), K(nbytes)):
            r.add("%s|advance" % R.q, R.where(), "%s: the read position advances by something other than the %d bytes written" % (R.q, nbytes))
    # strings
    W, R = one(prog, "gcov_write_string", r), one(prog, "gcov_read_string", r)
    for ver in (0, 1, 2, 3, 4, 0x34303670, 0x3430372a):
        w = Run(prog, W, version=ver, force=room(False))
        rd = Run(prog, R, version=ver, force=room(False))
        bad = lambda F, k, m: r.add("%s|%s" % (F.q, k), F.where(), "%s (format version %d): %s" % (F.q, ver, m))
        r.count(obligations=5)
        try:
            strings(r, W, R, w, rd, at, S, bad)
        except KeyError as e:
            bad(W, "form", "length or position of a string is not a closed form of its length")
        for a in rd.conds:
            k = [x for x in a[2:] if x[0] == 'k'][0][1]
            x = [x for x in a[2:] if x[0] != 'k'][0]
            if k > 4 and depends(x, lambda t: t[0] == 'load'):
                r.add("%s|limit %d" % (R.q, k), R.where(), "%s: strings of %d bytes or more are written but rejected when read" % (R.q, k))
        # an absent string is a record of its own
        nul = Run(prog, W, version=ver, force=room(False), params={W.params[0]["n"]: K(0)})
        r.count(obligations=1)
        if [(add(loc[1], at, -1), v) for loc, v, wd in nul.writes if loc[0] == '*'] != [(K(0), K(0))] or nul.out.get(S.pos) != add(init(S.pos, 32), K(4)):
            bad(W, "absent", "an absent string is not written as a length of zero")
    buffers(prog, r, S, at, room)
    files(prog, r, S)
    r.assumptions = ["host byte order on both sides", "less than 4 GiB of profile is buffered"]
    return r


def image(w, at, n, pname):
    """byte image of a number's encoding: byte offset -> 8 bit sources"""
    mem = {}
    for loc, v, wd in w.writes:
        if loc[0] != '*':
            return None
        d = add(loc[1], at, -1)
        b = bits(v)
        if d[0] != 'k' or b is None:
            return None
        for i in range(wd):
            mem[d[1] + i] = [(x[0][3], x[1]) if isinstance(x, tuple) and x[0][0] == 'param' else
                             (x[0][1][x[1]][0][3], x[0][1][x[1]][1]) if isinstance(x, tuple) and x[0][0] == 'bits' and isinstance(x[0][1][x[1]], tuple) else x
                             for x in b[8 * i:8 * i + 8]]
    if sorted(mem) != list(range(n)):
        return None
    seen = [x for k in sorted(mem) for x in mem[k]]
    return mem if sorted(map(str, seen)) == sorted(str((pname, i)) for i in range(8 * n)) else None


def rebuild(v, at, mem):
    b = bits(v)
    if b is None:
        return None
    out = []
    for x in b[:8 * len(mem)]:
        if not isinstance(x, tuple):
            out.append(x)
            continue
        a, i = x
        if a[0] not in ('load', 'init') or a[0] == 'init' and a[3][0] != '*':
            return None
        addr = a[3] if a[0] == 'load' else a[3][1]
        d = add(addr, at, -1)
        if d[0] != 'k' or d[1] + i // 8 not in mem:
            return None
        out.append(mem[d[1] + i // 8][i % 8])
    return out


def strings(r, W, R, w, rd, at, S, bad):
    copy = [av for f, av, n in w.events if f == "memcpy"]
    if not copy or len(set(copy)) != 1:
        bad(W, "copy", "does not copy the string exactly once")
        return
    dst, src, cnt = copy[0]
    stores = [(add(loc[1], at, -1), v, wd) for loc, v, wd in w.writes if loc[0] == '*']
    rets = {v for v in rd.rets if v != K(0)}
    if len(rets) != 1:
        bad(R, "result", "does not return one position in the buffer")
        return
    ret = add(list(rets)[0], at, -1)
    loads = set()
    depends(rd.out.get(S.pos) or K(0), lambda a: loads.add(a) if a[0] == 'load' else False)
    if len(loads) != 1 or add(list(loads)[0][3], at, -1) != K(0):
        bad(R, "length", "does not take the length from the first word")
        return
    isword = lambda a: a in loads
    for L in LENS:
        e = [(is_strlen, L)]
        N = ev(add(w.out[S.pos], init(S.pos, 32), -1), e)
        words = {}
        zero = set()
        for d, v, wd in stores:
            o = ev(d, e)
            if v == K(0):
                zero |= set(range(o, o + wd))
            elif o == 0:
                words[0] = ev(v, e)
        if ev(cnt, e) != L or src != atom(('param', 64, False, W.params[0]["n"])):
            bad(W, "copy", "does not copy the whole string")
            return
        at_dst = ev(add(dst, at, -1), e)
        if not words.get(0):
            bad(W, "length", "no length is stored for a string of %d bytes, so it reads back as absent" % L)
            return
        if at_dst + L > N or at_dst + L >= N or at_dst + L not in zero:
            bad(W, "terminator", "a string of %d bytes is not terminated within its record" % L)
            return
        M = ev(add(rd.out[S.pos], init(S.pos, 32), -1), e + [(isword, words[0])])
        if M != N:
            bad(R, "extent", "a string of %d bytes takes %d bytes when written and %d when read" % (L, N, M))
            return
        if ev(ret, e + [(isword, words[0])]) != at_dst:
            bad(R, "start", "a string is read from somewhere other than where it was written")
            return


def buffers(prog, r, S, at, room):
    """growing and refilling keep the bytes"""
    for kind, n in (("unsigned", 4), ("counter", 8)):
        W = one(prog, "gcov_write_" + kind, r)
        w = Run(prog, W, force=room(True))
        re = [av for f, av, c in w.events if f == "realloc"]
        r.count(obligations=2)
        bad = lambda F, k, m: r.add("%s|%s" % (F.q, k), F.where(), "%s: %s" % (F.q, m))
        need = add(init(S.pos, 32), K(n))
        if not re or re[-1][0] != init(S.buf, 64):
            bad(W, "grow", "a full buffer is not enlarged, keeping its contents")
            continue
        size = re[-1][1]
        if not covers(size, need):
            bad(W, "grow", "the enlarged buffer need not hold the new bytes: %s" % vn.show_val(size)[:80])
        new = atom(('callw', 64, False, 'realloc', None, tuple(re[-1])))
        if not w.writes or any(loc[0] != '*' or not depends(loc, lambda a: a[0] == 'callw' and a[3] == 'realloc') for loc, v, wd in w.writes):
            bad(W, "grow", "bytes are stored into the buffer that was just replaced")
        alloc = [k for k, v in w.out.items() if fields(k) and v == size]
        if not alloc:
            bad(W, "grow", "the size of the enlarged buffer is not remembered")
        # reading across a refill
        R = one(prog, "gcov_read_" + kind, r)
        endf = end_field(prog, R, S, room)
        r.count(obligations=3)
        rd = Run(prog, R, force=room(True))
        mv = [av for f, av, c in rd.events if f == "memmove"]
        fr = [av for f, av, c in rd.events if f == "fread"]
        left = add(init(endf, 32), init(S.pos, 32), -1) if endf else None
        if left is None or not fr:
            bad(R, "refill", "missing bytes are not fetched from the file")
            continue
        buf = lambda v: depends(v, lambda a: a == ('init', 64, False, S.buf) or a[0] == 'callw' and a[3] == 'realloc')
        ra = [av for f, av, c in rd.events if f == "realloc"]
        if not ra or not covers(ra[-1][1], add(left, K(n)), left):
            bad(R, "refill", "the buffer need not hold the bytes kept and the ones wanted")
        if not mv or mv[-1][2] != left or mv[-1][1] != at or mv[-1][0] != init(S.buf, 64):
            bad(R, "refill", "the bytes not yet read are not kept when more are fetched")
        dst = fr[-1][0]
        if not (add(dst, init(S.buf, 64), -1) == left or add(dst, left, -1)[0] == 'lin' and len(add(dst, left, -1)[2]) == 1 and buf(add(dst, left, -1))):
            bad(R, "refill", "fetched bytes do not follow the ones kept")
        elif mv and mv[-1][0] == init(S.buf, 64):
            r.count(obligations=3)
            if rd.out.get(S.pos) != K(n):
                bad(R, "refill", "reading goes on somewhere other than after the value just read")
            end = add(rd.out.get(endf, K(0)), left, -1)
            if not (end[0] == 'lin' and end[1] == 0 and len(end[2]) == 1 and end[2][0][1] == 1 and depends(end, lambda a: a[0] == 'callw' and a[3] == 'fread')):
                bad(R, "refill", "the end of the buffered bytes is not where the fetched ones end")
            for v in rd.rets:
                for ad in loads(v):
                    if not (ad[0] == 'lin' and len(ad[2]) == 1 and ad[2][0][1] == 1 and 0 <= ad[1] < n and buf(ad)):
                        bad(R, "refill", "the value is not taken from the bytes kept and fetched")


def loads(v):
    out = []
    depends(v, lambda a: out.append(a[3]) and False if a[0] == 'load' else False)
    return out


def covers(size, need, left=K(0)):
    """size >= need for all values of unsigned quantities (left is one)"""
    return any(nonneg(add(add(size, need, -1), mul(left, K(k)), -1)) for k in range(3))


def nonneg(d):
    if d[0] == 'k':
        return d[1] >= 0
    return d[0] == 'lin' and d[1] >= 0 and all(c >= 0 for a, c in d[2])


def end_field(prog, R, S, room):
    """state field the position is compared with"""
    out = set()

    def f(v):
        if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and len(v[2][0][0]) == 4 and v[2][0][0][1] in ('<', '<='):
            for x in v[2][0][0][2:]:
                if x[0] == 'lin' and any(a[0] == 'init' and a[3] == S.pos for a, c in x[2]):
                    out.update(a[3] for a, c in x[2] if a[0] == 'init' and a[3] != S.pos and fields(a[3]))
        return room(False)(v)
    Run(prog, R, force=f)
    return list(out)[0] if len(out) == 1 else None


def files(prog, r, S):
    """open, flush and close report failure, and callers act on it"""
    C = one(prog, "gcov_close", r)
    isinit = lambda v, k: v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0] == ('init', 32, False, k)

    def dirty(v):
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            if a[0] == 'op' and len(a) == 4 and a[1] in ('==', '!=') and K(0) in a[2:]:
                x = a[3] if a[2] == K(0) else a[2]
                if x[0] == 'lin' and x[2] and x[2][0][0][0] == 'init':
                    return a[1] == '!='
            if a[0] == 'op' and len(a) == 4 and a[1] in ('<', '<=') and a[3] == K(0):
                return True
            if a[0] == 'op' and len(a) == 4 and a[1] in ('<', '<=') and a[2] == K(0):
                return False
            if a[0] == 'init' and fields(a[3]):
                return True
        return None
    for what, libc, okay in (("a failed write", {"fwrite": K(0), "fclose": K(0)}, False), ("a failed close", {"fwrite": K(1), "fclose": K(-1)}, False),
                             ("success", {"fwrite": K(1), "fclose": K(0)}, True)):
        c = Run(prog, C, libc=libc, force=dirty)
        r.count(obligations=1)
        vals = set(c.rets)
        if not okay and any(not (v[0] == 'k' and v[1] != 0) for v in vals):
            r.add("%s|%s" % (C.q, what), C.where(), "%s: %s of the profile is not reported" % (C.q, what))
        if okay:
            if any(v[0] == 'k' and v[1] != 0 for v in vals):
                r.add("%s|%s" % (C.q, what), C.where(), "%s: success is reported as failure" % C.q)
            seq = [f for f, av, n in c.events if f in ("fwrite", "fclose")]
            wr = [av for f, av, n in c.events if f == "fwrite"]
            if seq[:1] != ["fwrite"] or "fclose" not in seq or not wr or wr[0][0] != init(S.buf, 64) or not whole(wr[0], S):
                r.add("%s|flush" % C.q, C.where(), "%s: buffered bytes are not all written before the file is closed" % C.q)
    # nothing buffered may be dropped: a reader that closes writes nothing
    O = one(prog, "gcov_open", r)
    def closed(v):
        """nothing is open yet"""
        x, t = v, False
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            if a[0] == 'op' and len(a) == 4 and a[1] in ('==', '!=') and K(0) in a[2:]:
                x, t = (a[3] if a[2] == K(0) else a[2]), a[1] == '=='
            if x[0] == 'lin' and len(x[2]) == 1 and x[2][0][0][0] == 'init' and x[2][0][0][1] == 64 and fields(x[2][0][0][3]):
                return t
        return None
    fail = Run(prog, O, libc={"fopen": K(0)}, params={O.params[1]["n"]: K(1)}, force=closed)
    good = Run(prog, O, libc={"fopen": ('addr', ('o', 'file'))}, params={O.params[1]["n"]: K(1)}, force=closed)
    fw = Run(prog, O, libc={"fopen": K(0)}, params={O.params[1]["n"]: K(-1)}, force=closed)
    gw = Run(prog, O, libc={"fopen": ('addr', ('o', 'file'))}, params={O.params[1]["n"]: K(-1)}, force=closed)
    bad, ok = set(fail.rets) | set(fw.rets), set(good.rets) | set(gw.rets)
    r.count(obligations=2)
    if bad & ok or len(bad) != 1 or any(v[0] != 'k' for v in bad | ok):
        r.add("%s|result" % O.q, O.where(), "%s: a failed open cannot be told from a successful one" % O.q)
        return
    users = {F.key: F for F in prog.functions if F.blocks and any(n.f in ("gcov_open", "gcov_close") for n in F.walk())}
    grow = True
    while grow:
        grow = False
        for F in prog.functions:
            if F.blocks and F.key not in users and F.cls and F.d.get("ret") not in ("void", None) and \
                    any(G.key in users and G.cls == F.cls for n in F.walk() if n.f for G in prog.callee(n, F)):
                users[F.key] = F
                grow = True
    for F in users.values():
        calls = reach(prog, F, users)
        for name, v, what in (("gcov_open", list(bad)[0], "a file that cannot be opened"), ("gcov_close", K(1), "a file that could not be completed")):
            if name not in calls:
                continue
            seq = []

            def icpt(ip, n, fname, av, st, fr):
                if fname in ("gcov_open", "gcov_close"):
                    seq.append((fname, n))
                    return v if fname == name else K(1) if fname == "gcov_open" else K(0)
                if fname.startswith("gcov_write") or fname.startswith("gcov_read"):
                    seq.append((fname, n))
                    return atom(('callw', 32, False, fname, None, (), n.i, fr))
                return None
            rets, out = vn.run(Interp(prog, intercept=icpt, inline=lambda G: G.cls == F.cls and not G.q.startswith("gcov_")), F)
            after = False
            last = None
            for f, n in seq:
                if f == name:
                    after, last = True, n
                elif after and name == "gcov_open" and f != "gcov_close":
                    r.add("%s|%s" % (F.q, name), F.where(last), "%s: goes on after %s" % (F.q, what))
                    break
            r.count(obligations=1, file_users=1)
            if out is not None and any(not (x == K(0)) for x in rets) and F.d.get("ret") != "void" and name == "gcov_close":
                r.add("%s|%s" % (F.q, name), F.where(last), "%s: reports success after %s" % (F.q, what))


def reach(prog, F, users, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    if F.key in seen:
        return out
    seen.add(F.key)
    for n in F.walk():
        if n.f in ("gcov_open", "gcov_close"):
            out.add(n.f)
        elif n.f:
            for G in prog.callee(n, F):
                if G.key in users:
                    out |= reach(prog, G, users, seen)
    return out


def whole(av, S):
    p = init(S.pos, 32)
    return (av[1], av[2]) in ((p, K(1)), (K(1), p))
