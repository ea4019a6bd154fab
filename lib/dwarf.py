"""Abstract model of the byte reader and string pool used when the DWARF
decoders are interpreted: every read becomes an atom naming what was read and
from where, so decoders can be compared with the standard's encoding tables."""
import vn
from vn import K, atom, add, mul, Interp
from frontend import AnalysisBroken

NS = "devtools_crosstool_autofdo::"
RD = NS + "ByteReader::"
FIXED = {"ReadOneByte": 1, "ReadTwoBytes": 2, "ReadThreeBytes": 3, "ReadFourBytes": 4, "ReadEightBytes": 8}


def rd(n, p):
    return atom(('rd', n, p))


def uleb(p):
    return atom(('uleb', p))


def sleb(p):
    return atom(('sleb', p))


def leblen(p):
    return atom(('leblen', p))


def off(p):
    return atom(('off', p))


def adr(p):
    return atom(('adr', p))


OFFSZ, ADRSZ = atom(('offsz',)), atom(('adrsz',))


def setout(ip, st, v, x):
    if v[0] == 'addr':
        ip.store(st, v[1], x)
    else:
        ip.store(st, ('*', v), x)


class Model:
    """intercept() handles reader calls, strlen and the string-pool helpers;
    events collects calls into the handler."""

    def __init__(self, recurse=(), handler=None, offsz=None, adrsz=None, extra=None):
        self.recurse = set(recurse)      # function keys treated as opaque self-recursion
        self.handler = handler or (lambda name: False)
        self.events = {}
        self.offsz, self.adrsz = offsz, adrsz
        self.reads = {}
        self.log = {}        # handler calls in the order they are first met
        self.extra = extra

    def intercept(self, ip, n, fname, av, st, fr):
        if self.extra is not None:
            r = self.extra(ip, n, fname, av, st, fr)
            if r is not None:
                return r
        if fname.startswith(RD):
            m = fname[len(RD):]
            if m in FIXED:
                self.reads[(n.get('i'), fr)] = (FIXED[m], av[0])
                return rd(FIXED[m], av[0])
            if m in ("ReadUnsignedLEB128", "ReadSignedLEB128"):
                setout(ip, st, av[1], leblen(av[0]))
                return uleb(av[0]) if m[4] == 'U' else sleb(av[0])
            if m == "ReadOffset":
                return off(av[0])
            if m == "ReadAddress":
                return adr(av[0])
            if m == "OffsetSize":
                return K(self.offsz) if self.offsz is not None else OFFSZ
            if m == "AddressSize":
                return K(self.adrsz) if self.adrsz is not None else ADRSZ
            if m in ("SetOffsetSize", "SetAddressSize"):
                self.events[(n.get('i'), fr)] = (m, tuple(av), n)
                return atom(('void',))
            if m == "ReadInitialLength" and self.offsz is not None:
                w = 12 if self.offsz == 8 else 4
                setout(ip, st, av[1], K(w))
                return rd(8, add(av[0], K(4))) if w == 12 else rd(4, av[0])
        if fname in ("strlen", "std::strlen", "__builtin_strlen"):
            return atom(('strlen', av[0]))
        if fname == NS + "get_string_with_offsets":
            return atom(('cstr', av[0], av[2]))
        if self.handler(fname):
            self.events[(n.get('i'), fr)] = (fname.split("::")[-1], tuple(av), n)
            self.log.setdefault(fname.split("::")[-1], []).append(tuple(av))
            if n.s in (None, '', 'v') or n.t == 'void':
                return atom(('void',))
        if n.get('fk') in self.recurse:
            return atom(('rec',) + tuple(av))
        return None


def depends(v, pred):
    """does an abstract value mention an atom satisfying pred?"""
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and pred(v):
        return True
    return any(depends(x, pred) for x in v if isinstance(x, tuple))


def methods(prog, cls):
    return [F for F in prog.functions if F.cls == NS + cls and F.blocks]


def one(fs, what):
    if not fs:
        raise AnalysisBroken("no function found: " + what)
    return fs[0]


def short(n):
    """name of a called function without qualification and template arguments"""
    f, d, out = n.get("f") or "", 0, ""
    for c in f:
        if c == '<' and not out.endswith("operator"):
            d += 1
        elif c == '>' and d:
            d -= 1
        elif not d:
            out += c
    return out.split("::")[-1]
