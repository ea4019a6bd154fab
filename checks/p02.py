"""Line-number program: every opcode has the effect the DWARF standard gives it."""
import vn
from vn import K, atom, add, mul, binop, Interp
from core import Result
from dwarf import *
from ir import *

STD = {"extended_op": 0, "copy": 1, "advance_pc": 2, "advance_line": 3, "set_file": 4, "set_column": 5, "negate_stmt": 6,
       "set_basic_block": 7, "const_add_pc": 8, "fixed_advance_pc": 9, "set_prologue_end": 10, "set_epilogue_begin": 11,
       "set_isa": 12}
EXT = {"end_sequence": 1, "set_address": 2, "define_file": 3, "set_discriminator": 4}
FIELDS = ("address", "file_num", "line_num", "column_num", "is_stmt", "discriminator", "end_sequence")


def untrunc(v):
    """drop width conversions (compared modulo the target width)"""
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == 'lin':
        acc = K(v[1])
        for a, c in v[2]:
            if a[0] == 'trunc':
                acc = add(acc, mul(K(c), untrunc(a[3])))
            elif a[0] == 'op' and a[1] == '*':
                acc = add(acc, mul(K(c), mul(untrunc(a[2]), untrunc(a[3]))))
            else:
                acc = add(acc, mul(K(c), atom(tuple(untrunc(x) for x in a) if a[0] in ('op', 'ite') else a)))
        return acc
    return v


def agree(got, want, w=None):
    if got is None:
        return False
    g, x = untrunc(got), untrunc(want)
    if g == x:
        return True
    if g[0] == 'addr' or x[0] == 'addr':
        return False
    a, b = vn.bits(g), vn.bits(x)
    return a is not None and b is not None and a[:w or 64] == b[:w or 64]


def check(prog, tier):
    r = Result("abstract interpretation of the line-program decoder with the opcode held constant: the state-machine "
               "updates, row emission and encoded length of each opcode must be the standard's; dataflow over the "
               "row loop: every sequence starts from the reset state, rows clear the discriminator, and the program "
               "pointer moves by exactly the decoded length")
    ms = methods(prog, "LineInfo")
    F = one([f for f in ms if any("LineStateMachine *" in (p.get("t") or "") for p in f.params) and f.d.get("ret") == "bool"], "opcode decoder")
    P = {}
    for p in F.params:
        t = p.get("t") or ""
        for key, pat in (("reader", "ByteReader *"), ("handler", "LineInfoHandler *"), ("header", "LineInfoHeader &"),
                         ("lsm", "LineStateMachine *"), ("start", "const char *")):
            if pat in t and "vector" not in t and key not in P:
                P[key] = p
        if "vector" in t:
            P["logicals"] = p
        elif p["s"] == "p" and ("unsigned long" in t or "size_t" in t):
            P["len"] = p
        elif p["s"] == "b":
            P["act"] = p
    for k in ("header", "lsm", "start", "len", "logicals", "act"):
        if k not in P:
            raise AnalysisBroken("opcode decoder lacks parameter " + k)
    S = atom(('param', 64, False, P["start"]["n"]))
    LSM = ('*', atom(('param', 64, False, P["lsm"]["n"])))
    HDR = ('v', P["header"]["d"], 'f')
    LEN = ('*', atom(('param', 64, False, P["len"]["n"])))
    recs = prog.record_q(NS + "LineStateMachine")
    shapes = {f["n"]: f["s"] for f in recs[0]["fields"]}

    def init(f):
        w, sg = vn.shape_bits(shapes[f])
        return atom(('load', w, sg, ('f', LSM, f))) if False else ip0.load({}, ('f', LSM, f), shapes[f])

    def hdr(f, s):
        return ip0.load({}, ('f', HDR, f), s)

    ip0 = Interp(prog)
    min_insn, line_base, line_range, ob = hdr("min_insn_length", "u8"), hdr("line_base", "s8"), hdr("line_range", "u8"), hdr("opcode_base", "u8")

    def go(opcode, ext=None, special=False, oplen=None):
        def extra(ip, n, fname, av, st, fr):
            if fname == RD + "ReadOneByte":
                if av[0] == S:
                    return K(opcode) if opcode is not None else None
                if ext is not None and av[0] == add(add(S, K(1)), leblen(add(S, K(1)))):
                    return K(ext)
            if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "vector<unsigned char" in (n.f or ""):
                return ('lref', ('oplen', av[1]))
            return None

        def assume(v):
            # header facts: a valid line_range, and whether this is a special opcode
            if v[0] == 'lin' and len(v[2]) == 1:
                a = v[2][0][0]
                if a[0] == 'op' and a[1] in ('==', '!=') and line_range in a[2:] and K(0) in a[2:]:
                    return a[1] == '!='
                if a[0] == 'op' and a[1] in ('<', '<=') and ob in a[2:]:
                    # a < ob: standard; ob <= a: special
                    lt = (a[2] != ob)
                    return (not special) if lt else special
                if v == line_range:
                    return True
                if a[0] in ('init', 'load') and 'std_opcode_lengths' in repr(a):
                    return True
                if a[0] == 'param' and a[3] == P["handler"]["n"]:
                    return True
            return None

        m = Model(handler=lambda f: f.startswith(NS + "LineInfoHandler::"), extra=extra)

        def consts(loc):
            if loc[0] == 'oplen':
                return oplen if loc[1] == K(opcode) else None
            return None
        ip = Interp(prog, consts=consts, intercept=m.intercept, assume=assume)
        rets, out = vn.run(ip, F, params={P["logicals"]["n"]: K(0), P["act"]["n"]: K(0)})
        return set(rets), out or {}, m

    def judge(what, res, upd, emits, length):
        rets, out, m = res
        r.count(opcodes=1)
        r.count(obligations=len(FIELDS) + 2)
        key = lambda x: "%s|%s %s" % (F.q, what, x)
        if rets != {K(int(emits))}:
            r.add(key("row"), F.where(), "%s: %s %s a row" % (F.q, what, "does not always emit" if emits else "may emit"))
        got = out.get(LEN)
        if not agree(got, length):
            r.add(key("length"), F.where(), "%s: %s is taken to be %s bytes long, it is %s" % (
                F.q, what, vn.show_val(got) if got else "?", vn.show_val(length)))
        for f in FIELDS:
            w, _ = vn.shape_bits(shapes[f])
            got = out.get(('f', LSM, f), init(f))
            want = upd.get(f, init(f))
            if not agree(got, want, w):
                r.add(key(f), F.where(), "%s: %s sets %s to %s, the standard says %s" % (
                    F.q, what, f, vn.show_val(got), vn.show_val(want)))

    # enumerators
    for en, tab, pre in (("DwarfLineNumberOps", STD, "DW_LNS_"), ("DwarfLineNumberExtendedOps", EXT, "DW_LNE_")):
        e = prog.enums.get(NS + en)
        if e:
            vals = {c["n"]: int(c["v"]) for c in e["consts"]}
            for n, v in tab.items():
                r.count(obligations=1)
                if vals.get(pre + n, v) != v:
                    r.add("%s|%s" % (en, n), e["file"] + ":1", "opcode %s%s has value %d, the standard's is %d" % (pre, n, vals[pre + n], v))

    one1 = K(1)
    op1 = add(S, one1)
    # special opcodes
    opc = rd(1, S)
    adj = add(opc, ob, -1)
    q = binop('/', adj, line_range, 32, True)
    rem = binop('%', adj, line_range, 32, True)
    judge("a special opcode", go(None, special=True),
          {"address": add(init("address"), mul(q, min_insn)),
           "line_num": add(add(init("line_num"), line_base), rem)}, True, one1)
    judge("copy", go(1), {}, True, one1)
    u, sl, ll = uleb(op1), sleb(op1), leblen(op1)
    judge("advance_pc", go(2), {"address": add(init("address"), mul(u, min_insn))}, False, add(one1, ll))
    judge("advance_line", go(3), {"line_num": add(init("line_num"), sl)}, False, add(one1, ll))
    judge("set_file", go(4), {"file_num": u}, False, add(one1, ll))
    judge("set_column", go(5), {"column_num": u}, False, add(one1, ll))
    judge("negate_stmt", go(6), {"is_stmt": atom(('op', '!', init("is_stmt")))}, False, one1)
    judge("set_basic_block", go(7), {}, False, one1)
    judge("const_add_pc", go(8), {"address": add(init("address"), mul(
        binop('/', add(K(255), ob, -1), line_range, 32, True), min_insn))}, False, one1)
    judge("fixed_advance_pc", go(9), {"address": add(init("address"), rd(2, op1))}, False, K(3))
    # unknown standard opcodes: operands are skipped by their declared count
    for o, nm in ((10, "set_prologue_end"), (11, "set_epilogue_begin"), (12, "set_isa"), (40, "an unknown standard opcode")):
        for cnt in (0, 1, 2):
            p, ln = op1, one1
            for _ in range(cnt):
                ln = add(ln, leblen(p))
                p = add(p, leblen(p))
            judge("%s with %d operands" % (nm, cnt), go(o, oplen=cnt), {}, False, ln)
    # extended opcodes
    e_at = add(op1, leblen(op1))
    elen = add(add(one1, leblen(op1)), uleb(op1))
    arg = add(e_at, one1)
    judge("end_sequence", go(0, ext=1), {"end_sequence": K(1)}, True, elen)
    judge("set_address", go(0, ext=2), {"address": adr(arg)}, False, elen)
    judge("set_discriminator", go(0, ext=4), {"discriminator": uleb(arg)}, False, elen)
    judge("an unknown extended opcode", go(0, ext=0x7f), {}, False, elen)
    res = go(0, ext=3)
    judge("define_file", res, {}, False, elen)
    n1 = add(add(arg, atom(('strlen', arg))), one1)
    n2 = add(n1, leblen(n1))
    n3 = add(n2, leblen(n2))
    ev = [e for e in res[2].events.values() if e[0] == "DefineFile"]
    r.count(obligations=1)
    ok = len(ev) == 1 and ev[0][1][0] == arg and agree(ev[0][1][1], K(-1), 32) and agree(ev[0][1][2], uleb(n1), 32) and \
        agree(ev[0][1][3], uleb(n2)) and agree(ev[0][1][4], uleb(n3))
    if not ok:
        r.add("%s|define_file event" % F.q, F.where(), "%s: define_file reports %s" % (
            F.q, [vn.show_val(x) for x in ev[0][1]] if ev else "nothing"))

    # initial state of a sequence
    R = [f for f in methods(prog, "LineStateMachine") if len(f.params) == 1 and f.params[0]["s"] == "b"]
    R = one(R, "state machine reset")
    _, out = vn.run(Interp(prog), R)
    want = {"file_num": K(1), "address": K(0), "line_num": K(1), "column_num": K(0), "discriminator": K(0), "end_sequence": K(0),
            "is_stmt": atom(('param', 1, False, R.params[0]["n"]))}
    for f, w in want.items():
        r.count(obligations=1)
        got = (out or {}).get(('f', ('o', 'this'), f))
        if got != w:
            r.add("%s|%s" % (R.q, f), R.where(), "%s: a new sequence starts with %s = %s" % (R.q, f, vn.show_val(got) if got else "its old value"))

    for G in prog.functions:
        if G.blocks and any(is_call(n) and n.get("fk") == F.key for n in G.walk()):
            Loop(prog, G, F, P, r, R).go()
    r.require(r.counts.get("rows", 0) >= 1, "no row emission")
    r.require(r.counts.get("row_loops", 0) >= 1, "no caller of the opcode decoder")
    r.sample("standard opcodes 0-12, special opcodes, extended opcodes 1-4, unknown opcodes")
    r.assumptions = ["line_range is not zero and min_insn_length applies per instruction (no VLIW op index)",
                     "two-level (experimental) line tables are outside the property"]
    return r


class Loop(Dataflow):
    """must-state around each call of the opcode decoder"""

    def __init__(self, prog, G, F, P, r, R):
        super().__init__(G)
        self.prog, self.F, self.P, self.r, self.R = prog, F, P, r, R
        self.idx = {k: i for i, p in enumerate(F.params) for k, q in P.items() if q is p}

    # state: flags that hold on every path (set intersection at joins)
    #  'fresh'   the state machine was reset since the last ended sequence
    #  'clean'   no emitted row has left its discriminator behind
    #  'moved'   the program pointer has moved past the last decoded opcode
    def initial(self):
        return {'clean', 'moved'}

    def copy(self, s):
        return set(s)

    def join(self, a, b):
        return a & b

    def callinfo(self, n):
        a = args(n)
        g = lambda k: path(a[self.idx[k]]) if k in self.idx and self.idx[k] < len(a) else None
        st = rpath(a[self.idx["start"]]) if self.idx["start"] < len(a) else None
        return g("lsm"), g("len"), st

    def transfer(self, s, n):
        if is_call(n):
            if n.get("fk") == self.F.key:
                l, o, p = self.callinfo(n)
                s.discard('moved')
                s.discard('clean')
                s.add(('lsm', l))
                s.add(('op', o, p))
            if n.get("fk") == self.R.key and n.k == "CXXMemberCallExpr":
                s.add('fresh')
                s.add('clean')
            fn = (n.f or "").split("::")[-1]
            if fn in ("AddLine", "AddLogical"):
                pass
        for p, w, v in assigned_paths(n):
            if p.endswith(".discriminator") and v is not None and cval(v) == 0:
                s.add('clean')
            ops = [x for x in s if isinstance(x, tuple) and x[0] == 'op']
            for _, o, q in ops:
                if p == q and o is not None:
                    ok = False
                    if n.k == "CompoundAssignOperator" and n.op == "+=" and path(n.ch[1]) == o:
                        ok = True
                    if v is not None:
                        x = strip(v)
                        if x.k == "BinaryOperator" and x.op == "+" and {path(x.ch[0]), path(x.ch[1])} == {o, q}:
                            ok = True
                        if x.k == "UnaryOperator" and x.op == "&":
                            y = strip(x.ch[0])
                            if y.k == "ArraySubscriptExpr" and path(y.ch[0]) == q and path(y.ch[1]) == o:
                                ok = True
                    if ok and 'moved' not in s:
                        s.add('moved')
                    elif ok:
                        s.discard('moved')      # moved twice
                    elif not ok and not isinstance(n, type(None)):
                        # re-seated at another table
                        if v is not None:
                            s.add('moved')

    def refine(self, s, cond, taken, blk):
        for c, pol in cond_atoms(cond, taken):
            p = path(c)
            if p and p.endswith(".end_sequence") and pol:
                s.discard('fresh')
            # the decoder's verdict: no row emitted leaves the discriminator alone
            x = strip(c)
            if is_call(x) and x.get("fk") == self.F.key and not pol:
                s.add('clean')
            if p is not None and not pol:
                v = self.fn.vars.get(p)
                i = strip(v.get("init")) if v is not None and isinstance(v.get("init"), Node) else None
                if i is not None and is_call(i) and i.get("fk") == self.F.key:
                    s.add('clean')
        return s

    def go(self):
        self.run()
        r, G = self.r, self.fn
        r.count(row_loops=1)

        def cb(s, n, blk):
            if is_call(n) and (n.f or "") == NS + "LineInfoHandler::AddLine":
                r.count(rows=1)
                for f, a in zip(("address", "file_num", "line_num", "column_num", "discriminator", "end_sequence"), args(n)):
                    r.count(obligations=1)
                    q = rpath(a) or ""
                    if q.split(".")[-1] != f:
                        r.add("%s|row %s" % (G.q, f), G.where(n), "%s: a row's %s is reported as '%s'" % (G.q, f, show(a)))
            if is_call(n) and n.get("fk") == self.F.key:
                r.count(decoder_calls=1, obligations=3)
                l, o, p = self.callinfo(n)
                if 'fresh' not in s:
                    r.add("%s|fresh" % G.q, G.where(n), "%s: a sequence may start without resetting the state machine" % G.q)
                if 'clean' not in s:
                    r.add("%s|clean" % G.q, G.where(n), "%s: the discriminator may survive an emitted row" % G.q)
                if 'moved' not in s:
                    r.add("%s|moved" % G.q, G.where(n), "%s: the program pointer may not move by the decoded length" % G.q)
        self.visit(cb)
