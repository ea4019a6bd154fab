"""A sample's place (line offset, discriminator) survives being packed and unpacked."""
import vn
from vn import K, atom, Interp, bits
from core import Result
from dwarf import NS, short, methods
from checks.p03 import logic
from checks.p08 import source_info


def named(prog, name, n):
    fs = [F for F in prog.functions if F.q == NS + "SourceInfo::" + name and F.blocks]
    return fs + [F for F in prog.alt.values() if F.q == NS + "SourceInfo::" + name and F.blocks]


def value(prog, F, vals, intercept=None, assume=None):
    ip = Interp(prog, intercept=intercept or (lambda *a: None), assume=assume)
    rets, out = vn.run(ip, F, params={p["n"]: v for p, v in zip(F.params, vals)})
    return rets[0] if len(set(rets)) == 1 else None


def sym(name, w):
    return atom(('param', w, False, name))


def prov(v, n=64):
    """bit -> (source, source bit) | 0 | 1 | None"""
    b = bits(v)
    if b is None:
        return None
    out = []
    for x in list(b)[:n] + [0] * max(0, n - len(b)):
        if isinstance(x, tuple) and isinstance(x[0], tuple):
            a = x[0]
            out.append((a[3] if a[0] == 'param' else a, x[1]))
        else:
            out.append(x)
    return out


def want(name, w, n=64):
    return [(name, i) if i < w else 0 for i in range(n)]


def redo(v, old, new):
    """v with old replaced by new, folded again"""
    if v == old:
        return new
    if v[0] != 'lin':
        return v
    t = K(v[1])
    for a, c in v[2]:
        x = atom(a)
        if a[0] == 'op' and len(a) == 4:
            x = vn.binop(a[1], redo(a[2], old, new), redo(a[3], old, new), 64, False)
        t = vn.add(t, vn.mul(x, K(c)))
    return t


def show(p):
    if p is None:
        return "not a rearrangement of the input bits"
    t = []
    for i, x in enumerate(p):
        if isinstance(x, tuple):
            t.append("%d<-%s:%d" % (i, x[0] if isinstance(x[0], str) else "?", x[1]))
        elif x != 0:
            t.append("%d<-%s" % (i, x))
    return ", ".join(t[:3]) + (" .. " + t[-1] if len(t) > 3 else "")


def check(prog, tier):
    r = Result("bit-provenance analysis of the packing and unpacking of sample positions, composed: every bit of the line offset and of "
               "the discriminator must come back at its own position, in every build mode and in both profile formats")
    G = named(prog, "GenerateOffset", 2)
    r.require(bool(G), "position packing")
    L16, L32, D16, D32 = sym("line", 16), sym("line", 32), sym("disc", 16), sym("disc", 32)

    def expect(F, got, exp, what):
        r.count(obligations=1)
        p = prov(got) if got is not None else None
        if p != exp:
            r.add("%s|%s" % (F.q, what), F.where(), "%s: %s does not come back: %s" % (F.q, what, show(p)))
    packed = []
    for F in G:
        for Ln, Dn, lw, dw in ((L16, D32, 16, 32), (L32, D32, 32, 32), (L16, D16, 16, 16)):
            v = value(prog, F, (Ln, Dn))
            r.count(obligations=1)
            p = prov(v) if v is not None else None
            if p is None or any(not isinstance(x, tuple) and x not in (0, 1) for x in p):
                r.add("%s|pack" % F.q, F.where(), "%s: the packed position is not made of the bits of line and discriminator" % F.q)
                continue
            srcs = [x for x in p if isinstance(x, tuple)]
            if len(set(srcs)) != len(srcs) or len(srcs) != lw + dw:
                r.add("%s|pack" % F.q, F.where(), "%s: packing loses or mixes bits of line and discriminator: %s" % (F.q, show(p)))
            packed.append((v, lw, dw))
    for v, lw, dw in packed:
        for F in named(prog, "GetDiscriminatorFromOffset", 1):
            expect(F, value(prog, F, (v,)), want("disc", dw), "a %d-bit discriminator" % dw)
        if lw == 16:
            for F in named(prog, "GetLineNumberFromOffset", 1):
                expect(F, value(prog, F, (v,)), want("line", 16), "a 16-bit line offset")
    # the position of a sample is packed from its own line offset and discriminator
    for F in named(prog, "Offset", 1):
        line, start, disc = [atom(('init', 32, False, ('f', ('o', 'this'), f))) for f in ("line", "start_line", "discriminator")]
        delta = vn.binop('-', line, start, 32, False)
        for mode in range(8):
            seen = []

            def icpt(ip, n, fname, av, st, fr):
                if av and "Discriminator" in short(n) and not fname.startswith(NS):
                    seen.append(av[0])
                    return sym("basedisc", 32)
                return None

            def assume(v):
                return logic(v, lambda x: bool(mode >> flagbit(x) & 1) if flagbit(x) is not None else None)
            ip = Interp(prog, intercept=icpt, assume=assume)
            rets, out = vn.run(ip, F)
            for v in set(rets):
                r.count(obligations=1)
                w = prov(redo(v, delta, sym("delta", 32)))
                dn = [prov(disc)[:32]] + ([want("basedisc", 32, 32)] if seen and set(seen) == {disc} else [])
                ok = [[d[x[1]] if isinstance(x, tuple) and x[0] == "disc" else x for x in prov(value(prog, g, (sym("delta", 32), D32))) or [None]] for g in G for d in dn]
                if w is None or w not in ok:
                    r.add("%s|%s" % (F.q, F.tu), F.where(), "%s (%s): a sample's position is %s, not its line offset and discriminator packed" % (
                        F.q, F.tu, vn.show_val(v)[:120]))
    # compressed form: written by the profile writer, split again by the reader
    C = named(prog, "GenerateCompressedOffset", 1)
    small = [v for v, lw, dw in packed if (lw, dw) == (16, 16)]
    r.require(bool(C) and bool(small), "compressed positions")
    readers = decoders(prog, r)
    for F in C:
        for v in small:
            c = value(prog, F, (v,))
            p = prov(c, 32) if c is not None else None
            r.count(obligations=1)
            if p is None or len([x for x in p if isinstance(x, tuple)]) != 32 or len(set(p)) != 32:
                r.add("%s|compress" % F.q, F.where(), "%s: compressing loses bits of a 16-bit line offset or discriminator: %s" % (F.q, show(p)))
                continue
            for R, n, wire, ln, dc, st in readers:
                for what, val in (("line", ln), ("disc", dc)):
                    q = prov(val)
                    # substitute the wire bits by what the writer put there
                    got = None if q is None else [p[x[1]] if isinstance(x, tuple) and x[0] == wire else x for x in q]
                    r.count(obligations=1)
                    if got != want(what, 16):
                        r.add("%s|%s" % (R.q, what), R.where(n), "%s: the %s read back from a stored position is not the one written: %s" % (
                            R.q, {"line": "line offset", "disc": "discriminator"}[what], show(got)))
                r.count(obligations=1)
                if st != K(0):
                    r.add("%s|start" % R.q, R.where(n), "%s: a stored line offset is read back relative to line %s" % (R.q, vn.show_val(st)[:60]))
    llvm_frames(prog, r)
    r.assumptions = ["line offsets and discriminators fit in the 16 bits the GCC profile format gives each of them"]
    return r


def flagbit(x):
    v = x
    if v[0] == 'lin' and len(v[2]) == 1:
        a = v[2][0][0]
        if a[0] == 'param' and a[1] == 1:
            return 0
        if a[0] == 'init' and a[1] == 1 and a[3][0] == 'g':
            return 1 if 'base' in str(a[3][1]) else 2
    return None


def frames(prog, F, reads):
    """SourceInfo objects built in F: node -> args"""
    out = {}

    def icpt(ip, n, fname, av, st, fr):
        if fname in reads:
            return atom(('callw', reads[fname], False, 'read', None, (), n.i, fr))
        return None

    def hook(ip, n, av, st, fr):
        if (n.cls or "").endswith("SourceInfo") and len(av) >= 5:
            out[(n.i, fr)] = (n, source_info(prog, n.get("fk"), len(av), av))
        return None
    ip = Interp(prog, intercept=icpt, inline=lambda G: G.cls == F.cls and G is not F and G.key != F.key)
    ip.ctor_hook = hook
    vn.run(ip, F)
    return [x for x in out.values() if x[1]]


READ = {"gcov_read_unsigned": 32, "gcov_read_counter": 64}


def decoders(prog, r):
    out = []
    for F in prog.functions:
        if not F.blocks or not any(c.f == "gcov_read_unsigned" for c in F.walk() if c.f) or \
                not any(n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.cls or "").endswith("::SourceInfo") and len(n.ch) >= 5 for n in F.walk()):
            continue
        for n, m in frames(prog, F, READ):
            src = set()
            for v in (m["line"], m["discriminator"]):
                p = prov(v)
                for x in p or ():
                    if isinstance(x, tuple):
                        src.add(x[0])
            r.count(obligations=1, stored_positions=1)
            if len(src) != 1:
                r.add("%s|source" % F.q, F.where(n), "%s: line offset and discriminator of a stored position do not come from the one value read" % F.q)
                continue
            out.append((F, n, list(src)[0], m["line"], m["discriminator"], m["start_line"]))
    r.require(len(out) >= 1, "readers of stored positions")
    return out


def llvm_frames(prog, r):
    """frames built from LLVM line locations"""
    k = 0
    for F in prog.functions:
        if not F.blocks or not any(n.k == "MemberExpr" and n.n == "LineOffset" for n in F.walk()):
            continue
        if not any(n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.cls or "").endswith("::SourceInfo") and len(n.ch) >= 5 for n in F.walk()):
            continue
        for n, m in frames(prog, F, {}):
            k += 1
            r.count(obligations=1, stored_positions=1)
            a, b = base(m["line"], "LineOffset"), base(m["discriminator"], "Discriminator")
            if a is None or a != b or m["start_line"] != K(0):
                r.add("%s|location" % F.q, F.where(n), "%s: a position read from a profile is (%s, %s) relative to %s, not its line offset and discriminator" % (
                    F.q, vn.show_val(m["line"])[:50], vn.show_val(m["discriminator"])[:50], vn.show_val(m["start_line"])[:30]))
    r.require(k >= 1, "LLVM line locations")


def base(v, f):
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][0] in ('init', 'load'):
        loc = v[2][0][0][3]
        if loc[0] == 'f' and loc[2] == f:
            return loc[1]
    return None
