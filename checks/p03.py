"""Compilation-unit and line-table headers decode to the standard's fields."""
import vn
from vn import K, atom, add, mul, Interp
from core import Result
from dwarf import *
from checks.p02 import agree

THIS = ('o', 'this')


def fld(*names):
    loc = THIS
    for n in names:
        loc = ('f', loc, n)
    return loc


def in_bounds(v):
    """bounds comparisons against the end of the section hold; a zero unit
    length does not occur"""
    if v[0] != 'lin' or len(v[2]) != 1:
        return None
    a = v[2][0][0]
    if a[0] != 'op' or len(a) != 4:
        return None

    def end(x):
        return x[0] == 'lin' and any(t[0] == 'init' and str(t[3][-1]).endswith('buffer_length_') for t, c in x[2])
    if a[1] in ('<', '<='):
        if end(a[2]) and not end(a[3]):
            return False
        if end(a[3]) and not end(a[2]):
            return True
    return None


def logic(v, leaf):
    """decide a condition from its parts"""
    if v[0] == 'k':
        return v[1] != 0
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][0][0] == 'op':
        a = v[2][0][0]
        if a[1] == '!':
            x = logic(a[2], leaf)
            return None if x is None else not x
        if a[1] in ('||', '&&'):
            x, y = logic(a[2], leaf), logic(a[3], leaf)
            dom = a[1] == '||'
            if x is dom or y is dom:
                return dom
            return None if x is None or y is None else not dom
        if a[1] in ('==', '!=') and K(0) in a[2:]:
            x = a[2] if a[3] == K(0) else a[3]
            if x[0] == 'lin' and len(x[2]) == 1 and x[1] == 0 and x[2][0][0][0] == 'op':
                x = logic(x, leaf)
                return None if x is None else x == (a[1] == '!=')
    return leaf(v)


def nonzero(x):
    """addresses inside sections, unit lengths and section strings are non-zero"""
    if x[0] != 'lin':
        return False
    if any(a[0] == 'init' and c == 1 for a, c in x[2]):
        return all(c > 0 for a, c in x[2])
    return len(x[2]) == 1 and x[2][0][0][0] in ('rd', 'cstr')


class Script:
    """expected header layout: positions paired with constant contents"""

    def __init__(self, base, osz):
        self.p, self.osz = base, osz
        self.const = {}     # (kind, addr) -> int
        self.nz = {}        # addr -> bool (is the char there non-zero)

    def fixed(self, n, val=None):
        at = self.p
        if val is not None:
            self.const[(n, at)] = val
        self.p = add(self.p, K(n))
        return K(val) if val is not None else rd(n, at)

    def offset(self):
        at = self.p
        self.p = add(self.p, K(self.osz))
        return off(at)

    def leb(self, val=None):
        at = self.p
        if val is not None:
            self.const[('uleb', at)] = val
        self.p = add(self.p, leblen(at))
        return K(val) if val is not None else uleb(at)

    def cstr(self):
        at = self.p
        self.nz[at] = True
        self.p = add(add(self.p, atom(('strlen', at))), K(1))
        return at

    def nul(self):
        self.nz[self.p] = False
        self.p = add(self.p, K(1))

    def extra(self, ip, n, fname, av, st, fr):
        if fname.startswith(RD):
            m = fname[len(RD):]
            if m in FIXED and (FIXED[m], av[0]) in self.const:
                return K(self.const[(FIXED[m], av[0])])
            if m == "ReadUnsignedLEB128" and ('uleb', av[0]) in self.const:
                setout(ip, st, av[1], leblen(av[0]))
                return K(self.const[('uleb', av[0])])
        return None

    def assume(self, v):
        return logic(v, self.leaf)

    def leaf(self, v):
        r = in_bounds(v)
        if r is not None:
            return r
        if v[0] == 'lin' and len(v[2]) > 1 and nonzero(v):
            return True
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            if a[0] in ('load', 'bits', 'op', 'init', 'cstr', 'rd'):
                x = v
                neg = False
                if a[0] == 'op' and a[1] in ('==', '!=') and K(0) in a[2:]:
                    x = a[2] if a[3] == K(0) else a[3]
                    neg = a[1] == '=='
                at = None
                if x[0] == 'lin' and len(x[2]) == 1:
                    y = x[2][0][0]
                    if y[0] == 'load' and y[1] == 8:
                        at = y[3]
                    elif y[0] == 'bits':
                        t = [b for b in y[1] if isinstance(b, tuple)]
                        if t and t[0][0][0] == 'load':
                            at = t[0][0][3]
                if at in self.nz:
                    return self.nz[at] != neg
                if nonzero(x):
                    return not neg
            elif nonzero(v):
                return True
        return None


def check(prog, tier):
    r = Result("abstract interpretation of the compilation-unit and line-table header readers with the DWARF version and "
               "offset size held constant: every header field, table entry and the end of the header must come from the "
               "position and width the standard gives it")
    cu_headers(prog, r)
    line_headers(prog, r)
    contrib_headers(prog, r)
    r.require(r.counts.get("obligations", 0) > 100, "headers")
    r.assumptions = ["the header lies inside its section", "line tables use the content types path, directory_index and MD5",
                     "two-level (experimental) line tables are outside the property"]
    return r


def expect(r, F, what, got, want, w=None, ctx=""):
    r.count(obligations=1)
    if not agree(got, want, w):
        r.add("%s|%s" % (F.q, what), F.where(), "%s: %s%s decodes to %s, the standard says %s" % (
            F.q, what, ctx, vn.show_val(got)[:160] if got else "nothing", vn.show_val(want)[:160]))


def events(m, name):
    return [e for e in m.events.values() if e[0] == name]


def cu_headers(prog, r):
    ms = methods(prog, "CompilationUnit")
    F = one([f for f in ms if f.name == "ReadHeader"], "CompilationUnit header reader")
    B = atom(('init', 64, False, fld("buffer_")))
    for osz in (4, 8):
        for v in (2, 3, 4, 5):
            for ut in ((1, 4, 5) if v == 5 else (None,)):
                for asz in (4, 8):
                    s = Script(add(B, K(12 if osz == 8 else 4)), osz)
                    exp = {}
                    s.fixed(2, v)
                    exp["version"] = K(v)
                    if v == 5:
                        exp["unit_type"] = s.fixed(1, ut)
                        exp["address_size"] = s.fixed(1, asz)
                        exp["abbrev_offset"] = s.offset()
                        if ut in (4, 5):
                            exp["dwo_id"] = s.fixed(8)
                    else:
                        exp["abbrev_offset"] = s.offset()
                        exp["address_size"] = s.fixed(1, asz)
                    exp["length"] = rd(8, add(B, K(4))) if osz == 8 else rd(4, B)
                    m = Model(offsz=osz, adrsz=None, extra=s.extra)
                    ip = Interp(prog, intercept=m.intercept, assume=s.assume)
                    rets, out = vn.run(ip, F)
                    out = out or {}
                    ctx = " (DWARF %d, %d-byte offsets%s)" % (v, osz, ", unit type %d" % ut if ut else "")
                    r.count(header_layouts=1)
                    for f, w in exp.items():
                        expect(r, F, f, out.get(fld("header_", f)), w, None, ctx)
                    expect(r, F, "end of header", out.get(fld("after_header_")), s.p, None, ctx)
                    ev = events(m, "SetAddressSize")
                    expect(r, F, "address size selection", ev[-1][1][0] if ev else None, K(asz), None, ctx)
                    r.count(obligations=1)
                    if out.get(fld("malformed_"), K(0)) == K(1):
                        r.add("%s|rejects" % F.q, F.where(), "%s: rejects a valid header%s" % (F.q, ctx))
            # headers of unknown version must be refused
    for v in (0, 1, 6, 7):
        s = Script(add(B, K(4)), 4)
        s.fixed(2, v)
        m = Model(offsz=4, extra=s.extra)
        rets, out = vn.run(Interp(prog, intercept=m.intercept, assume=s.assume), F)
        r.count(obligations=1)
        if not out or out.get(fld("malformed_")) != K(1):
            r.add("%s|version" % F.q, F.where(), "%s: accepts a unit of DWARF version %d" % (F.q, v))
    r.sample("compilation-unit header: versions 2-5, 4/8-byte offsets, 4/8-byte addresses")


def line_headers(prog, r):
    ms = methods(prog, "LineInfo")
    F = one([f for f in ms if f.name == "ReadHeader"], "LineInfo header reader")
    B = atom(('init', 64, False, fld("buffer_")))
    LS = atom(('init', 64, False, fld("line_str_buffer_")))
    SP = atom(('init', 64, False, fld("str_buffer_")))
    for osz in (4, 8):
        for v in (2, 3, 4, 5):
            for form in ((0x1f, 0x0e, 0x08) if v == 5 else (None,)):
                s = Script(add(B, K(12 if osz == 8 else 4)), osz)
                exp = {"unit_length": rd(8, add(B, K(4))) if osz == 8 else rd(4, B)}
                exp["version"] = s.fixed(2, v)
                if v == 5:
                    exp["address_size"] = s.fixed(1)
                    exp["segment_selector_size"] = s.fixed(1)
                exp["header_length"] = s.offset()
                body = add(s.p, exp["header_length"])     # header_length counts from here
                exp["min_insn_length"] = s.fixed(1)
                exp["max_ops_per_insn"] = s.fixed(1) if v >= 4 else K(1)
                exp["default_is_stmt"] = s.fixed(1)
                lb = s.p
                s.fixed(1)
                exp["line_range"] = s.fixed(1)
                exp["opcode_base"] = s.fixed(1, 4)
                opl = [s.fixed(1) for _ in range(3)]
                dirs, files = [], []
                if v < 5:
                    for i in (1, 2):
                        dirs.append((s.cstr(), K(i)))
                    s.nul()
                    for i in (1, 2):
                        files.append((s.cstr(), K(i), s.leb(), s.leb(), s.leb()))
                    s.nul()
                else:
                    def string():
                        if form == 0x08:
                            at = s.p
                            s.p = add(add(s.p, atom(('strlen', at))), K(1))
                            return at
                        o = s.offset()
                        return add(LS, o) if form == 0x1f else atom(('cstr', SP, o))
                    s.leb(1)
                    s.leb(1)
                    s.leb(form)
                    s.leb(2)
                    for i in (0, 1):
                        dirs.append((string(), K(i)))
                    md5 = form != 0x08
                    s.leb(3 if md5 else 2)
                    s.leb(1)
                    s.leb(form)
                    s.leb(2)
                    s.leb(0x0f if osz == 4 else 0x0b)
                    if md5:
                        s.leb(5)
                        s.leb(0x1e)
                    s.leb(2)
                    for i in (0, 1):
                        nm = string()
                        files.append((nm, K(i), s.leb() if osz == 4 else s.fixed(1), K(0), K(0)))
                        s.p = add(s.p, K(16 if md5 else 0))
                m = Model(offsz=osz, adrsz=8, handler=lambda f: f.startswith(NS + "LineInfoHandler::Define"), extra=s.extra)
                vec = {}

                def extra(ip, n, fname, av, st, fr, m=m, s=s):
                    if n.k == "CXXOperatorCallExpr" and n.op == "[]" and "vector<unsigned char" in (n.f or ""):
                        return ('lref', ('oplen', av[1]))
                    x = s.extra(ip, n, fname, av, st, fr)
                    return x
                m.extra = extra
                ip = Interp(prog, intercept=m.intercept, assume=lambda x: s.assume(x))
                rets, out = vn.run(ip, F)
                out = out or {}
                ctx = " (DWARF %d, %d-byte offsets%s)" % (v, osz, ", string form 0x%x" % form if form else "")
                r.count(header_layouts=1)
                for f, w in exp.items():
                    expect(r, F, f, out.get(fld("header_", f)), w, 1 if f == "default_is_stmt" else None, ctx)
                got = out.get(fld("header_", "line_base"))
                x = vn.bits(got) if got else None
                r.count(obligations=1)
                ok = x is not None and isinstance(x[0], tuple) and x[7][1] == 7 and x[7] == x[8] and x[0][0][0] in ('load', 'rd') and \
                    x[0][0][2 if x[0][0][0] == 'rd' else 3] == lb
                if not ok:
                    r.add("%s|line_base" % F.q, F.where(), "%s: line_base%s decodes to %s, the standard says the signed byte at %s" % (
                        F.q, ctx, vn.show_val(got)[:120] if got else "nothing", vn.show_val(lb)))
                for i, o in enumerate(opl):
                    expect(r, F, "operand count of opcode %d" % (i + 1), out.get(('oplen', K(i + 1))), o, 8, ctx)
                for nm, want in (("DefineDir", dirs), ("DefineFile", files)):
                    got = m.log.get(nm, [])
                    r.count(obligations=1)
                    if len(got) != len(want) or not all(agree(g, w, 32 if k == 1 or k == 2 else None)
                                                         for a, b in zip(got, want) for k, (g, w) in enumerate(zip(a, b))):
                        r.add("%s|%s" % (F.q, nm), F.where(), "%s: %s%s reports %s, the table holds %s" % (
                            F.q, nm, ctx, [[vn.show_val(x)[:60] for x in e] for e in got][:2], [[vn.show_val(x)[:60] for x in e] for e in want][:2]))
                end = out.get(fld("after_header_"))
                expect(r, F, "end of header", end, body if end == body else s.p, None, ctx)
    r.sample("line-table header: versions 2-5, 4/8-byte offsets, directory and file tables with two entries each")


def contrib_headers(prog, r):
    """string-offset and address table headers of DWARF 5 units"""
    ms = methods(prog, "CompilationUnit")
    for setter, after in (("set_str_offset_base", "offsets"), ("set_addr_base", "addresses")):
        fs = [f for f in ms if len(f.params) == 2 and any((n.get("f") or "").endswith("::" + setter) for n in f.walk())]
        if not fs:
            continue
        F = fs[0]
        B = atom(('param', 64, False, F.params[0]["n"]))
        for osz in (4, 8):
            s = Script(add(B, K(12 if osz == 8 else 4)), osz)
            s.fixed(2, 5)
            if after == "addresses":
                s.fixed(1, 8)
                s.fixed(1)
            else:
                s.fixed(2)
            m = Model(offsz=osz, handler=lambda f: f.endswith("::" + setter), extra=s.extra)

            def assume(v, s=s, F=F):
                if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op' and v[2][0][0][1] in ('<', '<='):
                    a = v[2][0][0]
                    ln = atom(('param', 64, False, F.params[1]["n"]))[2][0][0]
                    has = lambda x: x[0] == 'lin' and any(t == ln for t, c in x[2])
                    if has(a[2]) != has(a[3]):
                        return has(a[3])
                return s.assume(v)
            consts = {fld("header_", "version"): 5, fld("header_", "address_size"): 8}
            ip = Interp(prog, consts=consts.get, intercept=m.intercept, assume=assume)
            rets, out = vn.run(ip, F)
            ev = events(m, setter)
            expect(r, F, "start of the %s" % after, ev[-1][1][0] if ev else None, add(s.p, B, -1), None, " (%d-byte offsets)" % osz)
            r.count(header_layouts=1)
    r.sample("DWARF 5 .debug_str_offsets / .debug_addr contribution headers")
