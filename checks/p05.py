"""Byte reader: order, width, LEB128 decoding, offset/address width selection."""
import vn
from vn import K, atom, Interp
from core import Result

CLS = "devtools_crosstool_autofdo::ByteReader"
WIDTHS = {"ReadOneByte": 1, "ReadTwoBytes": 2, "ReadThreeBytes": 3, "ReadFourBytes": 4, "ReadEightBytes": 8}


def byte(base, i, known=None):
    """abstract content of the i-th input byte; known: {bit: 0/1}"""
    a = ('byte', base, i)
    bs = [(known or {}).get(j, (a, j)) for j in range(8)]
    return vn.from_bits(bs + [0] * 56)


class Mem:
    """abstract input buffer: byte i of `base` with some known bits"""

    def __init__(self, base, known=None, extra=None):
        self.base, self.known, self.extra = base, known or (lambda i: {}), extra or (lambda loc: None)

    def __call__(self, loc):
        if loc[0] == '*':
            a = loc[1]
            if a[0] == 'lin' and len(a[2]) == 1 and a[2][0][1] == 1:
                at = a[2][0][0]
                if at[0] == 'param' and at[3] == self.base:
                    return byte(self.base, a[1], self.known(a[1]))
        return self.extra(loc)


def expect_bits(base, order):
    """order: list of (byte index, known dict)"""
    out = []
    for i in order:
        out += [(('byte', base, i), j) for j in range(8)]
    return vn.from_bits(out + [0] * (64 - len(out)))


def fn(prog, name, nparams=None):
    fs = [F for F in prog.functions if F.cls == CLS and F.name == name and F.blocks and
          (nparams is None or len(F.params) == nparams)]
    from frontend import AnalysisBroken
    if not fs:
        raise AnalysisBroken("no definition of %s::%s" % (CLS, name))
    return fs[0]


def param(F, i):
    p = F.params[i]
    w, sg = vn.shape_bits(p["s"])
    return atom(('param', w, sg, p["n"]))


def outloc(F, i):
    return ('*', param(F, i))


def same(v, w, bits=64):
    x, y = vn.bits(v) if v[0] != 'addr' else None, vn.bits(w)
    return x is not None and x[:bits] == y[:bits]


def check(prog, tier):
    r = Result("bit-provenance value analysis of the byte reader: every result bit is traced to the input bit it comes "
               "from, per byte order and per encoded length, and compared with the DWARF/ELF encoding rules")
    endian = {c["n"]: int(c["v"]) for c in prog.enums["devtools_crosstool_autofdo::Endianness"]["consts"]}
    big, little = endian["ENDIANNESS_BIG"], endian["ENDIANNESS_LITTLE"]
    this = ('o', 'this')

    def go(F, mem, st=None, params=None):
        ip = Interp(prog, consts=mem)
        rets, out = vn.run(ip, F, st=st, params=params)
        return rets, out

    def judge(F, rets, want, what, nbits=64):
        r.count(obligations=1)
        vals = {v for v in rets}
        for v in vals:
            if not same(v, want, nbits):
                r.add("%s|%s" % (F.q, what), F.where(), "%s: %s gives %s, expected %s" % (
                    F.q, what, vn.show_val(v)[:200], vn.show_val(want)[:200]))
                return
        if not vals:
            r.add("%s|%s" % (F.q, what), F.where(), "%s: %s never returns" % (F.q, what))

    # 1. fixed-width reads
    for name, n in WIDTHS.items():
        F = fn(prog, name, 1)
        r.count(functions_analysed=1)
        base = F.params[0]["n"]
        for en, ev in (("little", little), ("big", big)):
            mem = Mem(base, extra=lambda loc, ev=ev: ev if loc == ('f', this, 'endian_') else None)
            rets, _ = go(F, mem)
            order = list(range(n)) if ev == little else list(range(n - 1, -1, -1))
            judge(F, rets, expect_bits(base, order), "%d-byte %s-endian read" % (n, en))
    r.sample("fixed-width reads: 5 functions x 2 byte orders, each result bit traced to its input bit")

    # 2. LEB128, every encoded length
    for name, sg in (("ReadUnsignedLEB128", False), ("ReadSignedLEB128", True)):
        F = fn(prog, name, 2)
        r.count(functions_analysed=1)
        base = F.params[0]["n"]
        for n in range(1, 11):
            for sign in ((0, 1) if sg else (None,)):
                def known(i, n=n, sign=sign):
                    if i == n - 1:
                        return {7: 0} if sign is None or n == 10 else {7: 0, 6: sign}
                    return {7: 1}
                rets, out = go(F, Mem(base, known))
                bs = []
                for k in range(64):
                    i, j = divmod(k, 7)
                    if i < n:
                        kn = known(i)
                        bs.append(kn.get(j, (('byte', base, i), j)))
                    else:
                        bs.append(sign or 0)
                if n == 10 and sg and sign == 1:
                    continue
                judge(F, rets, vn.from_bits(bs), "%d-byte %s LEB128%s" % (
                    n, "signed" if sg else "unsigned", "" if sign is None else " (negative)" if sign else " (non-negative)"))
                r.count(obligations=1)
                got = out.get(outloc(F, 1)) if out else None
                if got != K(n):
                    r.add("%s|length" % F.q, F.where(), "%s: reports length %s for a %d-byte encoding" % (
                        F.q, vn.show_val(got) if got else "nothing", n))
    r.sample("LEB128: encoded lengths 1..10, both sign bits")

    # 3. size selection
    for setter, getter, reader in (("SetOffsetSize", "OffsetSize", "ReadOffset"), ("SetAddressSize", "AddressSize", "ReadAddress")):
        S, G, R = fn(prog, setter, 1), fn(prog, getter, 0), fn(prog, reader, 1)
        r.count(functions_analysed=3)
        for n in (4, 8):
            ip = Interp(prog)
            _, out = vn.run(ip, S, params={S.params[0]["n"]: K(n)})
            if out is None:
                r.add("%s|%d" % (S.q, n), S.where(), "%s(%d) does not complete" % (S.q, n))
                continue
            base = R.params[0]["n"]
            st = {k: v for k, v in out.items() if k[0] == 'f'}
            mem = Mem(base, extra=lambda loc: little if loc == ('f', this, 'endian_') else None)
            rets, _ = go(R, mem, st=st)
            judge(R, rets, expect_bits(base, range(n)), "%s after %s(%d)" % (reader, setter, n))
            rets, _ = go(G, lambda loc: None, st=st)
            judge(G, rets, K(n), "%s after %s(%d)" % (getter, setter, n))
    # independence: setting one size leaves the other alone
    for setter, other in (("SetOffsetSize", ("address_reader_", "address_size_")), ("SetAddressSize", ("offset_reader_", "offset_size_"))):
        S = fn(prog, setter, 1)
        _, out = vn.run(Interp(prog), S, params={S.params[0]["n"]: K(8)})
        r.count(obligations=1)
        for k in (out or {}):
            if k[0] == 'f' and k[2] in other:
                r.add("%s|%s" % (S.q, k[2]), S.where(), "%s also changes '%s'" % (S.q, k[2]))

    # 4. initial length
    F = fn(prog, "ReadInitialLength", 2)
    r.count(functions_analysed=1)
    base = F.params[0]["n"]
    le = lambda loc: little if loc == ('f', this, 'endian_') else None
    rets, out = go(F, Mem(base, lambda i: {j: 1 for j in range(8)} if i < 4 else {}, le))
    judge(F, rets, expect_bits(base, range(4, 12)), "64-bit DWARF initial length")
    cases = [("64-bit DWARF", out, 12, 8)]
    for bit in range(32):
        rets, out = go(F, Mem(base, lambda i, bit=bit: {bit % 8: 0} if i == bit // 8 else {}, le))
        want = [0 if k == bit else (('byte', base, k // 8), k % 8) for k in range(32)]
        judge(F, rets, vn.from_bits(want + [0] * 32), "32-bit DWARF initial length")
        cases.append(("32-bit DWARF", out, 4, 4))
    for what, out, ln, osz in cases:
        r.count(obligations=1)
        G = fn(prog, "OffsetSize", 0)
        if out is None or out.get(outloc(F, 1)) != K(ln):
            r.add("%s|len" % F.q, F.where(), "%s: %s header is reported as %s bytes, expected %d" % (
                F.q, what, vn.show_val(out[outloc(F, 1)]) if out and outloc(F, 1) in out else "?", ln))
            continue
        rets, _ = go(G, lambda loc: None, st={k: v for k, v in out.items() if k[0] == 'f'})
        judge(G, rets, K(osz), "offset size after a %s initial length" % what)

    # 5. constructor stores the byte order it is given
    C = [f for f in prog.functions if f.cls == CLS and f.d.get("ctor") and len(f.params) == 1 and f.blocks]
    for c in C:
        for ev in (big, little):
            _, out = vn.run(Interp(prog), c, params={c.params[0]["n"]: K(ev)})
            r.count(obligations=1)
            if not out or out.get(('f', this, 'endian_')) != K(ev):
                r.add("%s|endian" % c.q, c.where(), "%s does not keep the byte order it is given" % c.q)
    r.require(r.counts["obligations"] > 60, "byte reader")
    r.assumptions = ["encodings longer than 10 bytes are not considered", "a signed 10-byte encoding has a zero sign bit"]
    return r
