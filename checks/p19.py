"""Line-table rows: each is filed under its address with its own directory, file, line and discriminator."""
import frontend
from wire import K, show, short
from paths import simp
from core import Result
from checks.p15 import Run, Chk, calls, inside, node_of
from checks.p16 import terms

LEVEL = "proof"
NSP = "devtools_crosstool_autofdo::"
H = NSP + "CULineInfoHandler"
MAP = NSP + "AddressToLineMap"


def param(F, i):
    return ('param', F.params[i]["n"])


class Rows(Run):
    def __init__(self, prog, F, keep=lambda G: False):
        from wire import Wire
        self.w = Wire(prog, {}, inline=lambda G: not keep(G))
        self.w.opaque = keep
        self.w.reach = set()
        self.w.rets = self.w.structs = True
        self.w.depth = 4
        self.items = self.w.run(F)


CMP = ("==", "!=", "<", "<=", ">", ">=")


def compared(e, flags=()):
    """assumptions e used to decide comparisons only, so that what is stored stays in terms of the inputs"""
    def env(t):
        if t[0] == 'op' and t[1] in CMP:
            v = simp(t, e)
            return v if v[0] == 'k' else None
        if t in flags:
            return e(t)
        return None
    return env


def method(prog, cls, name, n=None, poly=None):
    c = [F for F in prog.functions if F.cls == cls and F.name == name and F.body is not None and (n is None or len(F.params) == n)]
    if not c:
        raise frontend.AnalysisBroken("no definition of %s::%s" % (cls, name))
    return c[0]


def member(t):
    """the data member (of whatever object) a term denotes"""
    return t[2] if t and t[0] == 'm' else None


def field(prog, v, f):
    """a field of a record value"""
    if v[0] == 'rec':
        return dict(v[1]).get(f)
    if v[0] == 'new':
        for C in prog.functions:
            if C.cls == v[1] and len(C.params) == len(v[2]) and C.inits:
                for i in C.inits:
                    x = i.get("init")
                    if i.get("m") == f and isinstance(x, frontend.Node):
                        from wire import strip, cval
                        x = strip(x)
                        while x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.ch:
                            x = strip(x.ch[0])
                        for p, a in zip(C.params, v[2]):
                            if x.k == "DeclRefExpr" and x.d == p["d"]:
                                return a
                        if cval(x) is not None:
                            return K(cval(x))
    return None


def pair(v):
    if v is None:
        return None
    if v[0] == 'new' and len(v[2]) == 1:
        return pair(v[2][0])
    if v[0] == 'new' and len(v[2]) == 2 and 'pair' in (v[1] or ''):
        return v[2]
    if v[0] == 'call' and short(v[1]) == 'make_pair':
        return v[3]
    if v[0] == '{}' and len(v[1]) == 2:
        return v[1]
    if v[0] == 'rec':
        d = dict(v[1])
        return (d.get("first"), d.get("second"))
    return None


def appended(p, cont):
    """what is appended to a container"""
    return [e for e in p.effects if e[0] == 'sink' and short(e[1]) in ("push_back", "emplace_back") and e[2] is not None and member(e[2]) == cont]


def uncast(t):
    while t[0] == 'op' and t[1] == 'cast':
        t = t[2][-1]
    return t


class Tables:
    """where the line rows, places, files and directories are kept"""

    def __init__(self, prog, res):
        G = method(prog, MAP, "GetLogical", 1)
        r = [p.ret for p in Run(prog, G, lambda x: False).paths() if p.ret is not None]
        if not r or any(t[0] != 'at' for t in r):
            raise frontend.AnalysisBroken("GetLogical does not return an element")
        self.places = member(r[0][1])
        i = r[0][2]
        v = [simp(i, lambda t: K(n) if t == param(G, 0) else None) for n in (5, 6)]
        res.count(obligations=1)
        if any(x[0] != 'k' for x in v) or v[1][1] - v[0][1] != 1:
            res.add("GetLogical|index", G.where(), "GetLogical does not return the place of the number it is given")
            self.bias = 1
        else:
            self.bias = 5 - v[0][1]
        U = method(prog, MAP, "upper_bound", 1)
        r = [p.ret for p in Run(prog, U, lambda x: False).paths()]
        res.count(obligations=1)
        if len(r) != 1 or r[0] is None or r[0][0] != 'call' or short(r[0][1]) != 'upper_bound' or r[0][3] != (param(U, 0),):
            res.add("upper_bound|address", U.where(), "upper_bound does not look for the first row after the given address")
            B = method(prog, MAP, "begin", 0)
            r = [p.ret for p in Run(prog, B, lambda x: False).paths()]
        self.rows = member(r[0][2])
        B = method(prog, MAP, "begin", 0)
        r = [p.ret for p in Run(prog, B, lambda x: False).paths()]
        if member(r[0][2]) != self.rows:
            res.add("begin|rows", B.where(), "the first row is looked for somewhere other than among the rows")


def row(prog, res, T, dirs, files):
    F = method(prog, H, "AddLine")
    addr, fnum, line, disc, end = param(F, 0), param(F, 1), param(F, 2), param(F, 4), param(F, 5)
    run = Rows(prog, F)

    def env(ended=0, low=False, fbad=False, dbad=False, logical=False, at=0x3000, fn=3, dn=2):
        def e(t):
            if t == end:
                return K(ended)
            if t == addr:
                return K(0x1fff if low else at)
            if t[0] == 'm':
                if 'vaddr' in t[2]:
                    return K(0x2000)
                if t[2] in S["sampled"]:
                    return K(0)
                if t[2] in S["logicals"]:
                    return K(1 if logical else 0)
                if t[2] == "first" and any(member(x) == files for x in terms(t[1])):
                    return K(9 if dbad else dn)
            if t == fnum:
                return K(8 if fbad else fn)
            if t[0] == 'size' and member(t[1]) == files:
                return K(8)
            if t[0] == 'size' and member(t[1]) == dirs:
                return K(9)
            return None
        return compared(e, (end,))
    R = prog.records[H]
    chain = [r for r in prog.records.values() if r.q in (H, NSP + "LineInfoHandler")]
    S = {"sampled": {f["n"] for f in R.fields if "map<" in (f["t"] or "") and "*" in f["t"]},
         "logicals": {f["n"] for r in chain for f in r.fields if "LogicalsVector" in (f["t"] or "") or "LineStateMachine" in (f["t"] or "")}}
    if not S["logicals"] or not S["sampled"]:
        raise frontend.AnalysisBroken("members of the line handlers")

    # an ordinary row
    ps = [p for kw in ({}, dict(at=0x2000), dict(fn=0), dict(fn=7), dict(dn=0), dict(dn=8)) for p in run.paths(env(**kw))]
    res.count(paths=len(ps))
    for p in ps:
        c = Chk(res, F)
        res.count(obligations=7)
        ap = appended(p, T.places)
        if len(ap) != 1:
            c.fail("place", "a row's place is recorded %s" % ("twice" if ap else "never"), F)
            continue
        v = ap[0][3][0] if len(ap[0][3]) == 1 else ('new', NSP + "LineIdentifier", tuple(ap[0][3]))
        nd = node_of(ap[0])
        for what, got, want in (("line", field(prog, v, "line"), line), ("discriminator", field(prog, v, "discriminator"), disc)):
            if got is None or uncast(got) != want:
                c.fail(what, "a row's %s is recorded as %s" % (what, show(got) if got else "nothing"), F)
        pr = pair(field(prog, v, "file"))
        ent = lambda cont, x: x is not None and x[0] == 'at' and member(x[1]) == cont
        fe = None
        if pr is None or len(pr) != 2:
            c.fail("file", "a row's file is not recorded", F)
        else:
            d, f = pr
            if not (f is not None and f[0] == 'm' and f[2] == 'second' and ent(files, f[1]) and uncast(f[1][2]) == fnum):
                c.fail("file", "a row's file is %s rather than the one of its number" % (show(f) if f else "unknown"), F)
            if not (ent(dirs, d) and d[2][0] == 'm' and d[2][2] == 'first' and ent(files, d[2][1]) and uncast(d[2][1][2]) == fnum):
                c.fail("directory", "a row's directory is %s rather than that of its file" % (show(d) if d else "unknown"), F)
        st = filed(p, T)
        if len(st) != 1 or st[0][0] != addr:
            c.fail("address", "a row is filed %s" % ("under %s" % show(st[0][0]) if st else "nowhere"), F)
        else:
            n = st[0][1]
            sz = ('size', ap[0][2])
            a = simp(n, lambda t: K(100) if t == sz else None)
            if a != K(100 + T.bias):
                c.fail("number", "a row leads to the place %s rather than to its own" % show(n), F)
    if not ps:
        raise frontend.AnalysisBroken("no path for a row")
    # rows below the program, of unknown files or directories
    for what, kw in (("lies below the program", dict(low=True)), ("has a file number out of range", dict(fbad=True)), ("has a directory out of range", dict(dbad=True))):
        for p in run.paths(env(**kw)):
            res.count(obligations=1)
            if filed(p, T) or appended(p, T.places):
                Chk(res, F).fail("range", "a row that %s is filed" % what, F)
    # the end of a sequence
    ps = run.paths(env(ended=1))
    zero = False
    for p in ps:
        res.count(obligations=2)
        c = Chk(res, F)
        if appended(p, T.places):
            c.fail("end", "the end of a sequence is recorded as a place", F)
        for k, v, guarded in filed(p, T, True):
            if k != addr and not (k[0] == 'in' and k[1] == addr):
                c.fail("end", "the end of a sequence is filed under %s" % show(k), F)
            elif v != K(0):
                c.fail("end", "the end of a sequence leads to %s" % show(v), F)
            elif not guarded:
                c.fail("overwritten", "the end of a sequence replaces the row of another sequence starting at that address", F)
            zero = zero or v == K(0)
    if not zero:
        Chk(res, F).fail("end", "addresses after the end of a sequence keep its last row", F)
    for p in run.paths(env(ended=1, low=True)):
        if filed(p, T, True):
            Chk(res, F).fail("range", "a row that lies below the program is filed", F)


def filed(p, T, ends=False):
    """(address, number[, only when unset]) stored into the row table"""
    out = []
    rows = lambda b: b is not None and member(b) == T.rows
    look = [t for c in p.conds for t in terms(c) if t[0] == 'call' and rows(t[2]) and short(t[1]) in
            ("find", "count", "contains", "insert", "emplace", "try_emplace", "lower_bound", "equal_range", "end") or t[0] == 'at' and rows(t[1])]
    for e in p.effects:
        if e[0] == 'set':
            l = e[1]
            if l[0] == 'at' and rows(l[1]):
                out.append((l[2], e[2], bool(look)))
            elif l[0] == 'm' and l[2] == 'second':
                q = [t for t in terms(l) if t[0] == 'call' and rows(t[2])]
                if q:
                    a = q[0][3]
                    k = (pair(a[0]) or a)[0] if len(a) == 1 else a[0]
                    out.append((k, e[2], True))
        if e[0] == 'sink' and rows(e[2]) and short(e[1]) in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            a = e[3]
            a = pair(a[0]) if len(a) == 1 else a
            if a is None or len(a) != 2:
                out.append((('any', 0), ('any', 0), False))
            elif ends:
                out.append((a[0], a[1], short(e[1]) != "insert_or_assign"))
            elif short(e[1]) == "insert_or_assign":
                out.append((a[0], a[1], False))
            else:
                out.append((('any', 0), a[1], False))
    return out if ends else [(k, v) for k, v, g in out]


def tables(prog, res):
    """directories and files keep their numbers"""
    D, F = method(prog, H, "DefineDir"), method(prog, H, "DefineFile")
    R = prog.records[H]
    dirs = [f["n"] for f in R.fields if "DirectoryVector" in (f["t"] or "") or "vector<const char" in (f["t"] or "")]
    files = [f["n"] for f in R.fields if "FileVector" in (f["t"] or "") or "vector<std::pair<int, const char" in (f["t"] or "")]
    if len(dirs) != 1 or len(files) != 1:
        raise frontend.AnalysisBroken("the tables of the line handler")
    dirs, files = dirs[0], files[0]
    for G, cont, num, name in ((D, dirs, 1, 0), (F, files, 1, 0)):
        nm, nu = param(G, name), param(G, num)
        run = Rows(prog, G)
        for n, size in ((0, 1), (0, 5), (1, 1), (4, 4)):
            for p in run.paths(lambda t: K(n) if t == nu else K(size) if t[0] == 'size' and member(t[1]) == cont else None):
                res.count(obligations=1)
                c = Chk(res, G)
                # entry n of the table afterwards
                got = []
                for e in p.effects:
                    if e[0] == 'set' and e[1][0] == 'at' and member(e[1][1]) == cont:
                        i = simp(e[1][2], lambda t: K(n) if t == nu else K(size) if t[0] == 'size' else None)
                        got.append((i, e[2]))
                parts = {}
                for e in p.effects:
                    if e[0] == 'set' and e[1][0] == 'm' and e[1][1][0] == 'at' and member(e[1][1][1]) == cont:
                        parts.setdefault(e[1][1][2], {})[e[1][2]] = e[2]
                for i, d in parts.items():
                    got.append((simp(i, lambda t: K(n) if t == nu else K(size) if t[0] == 'size' else None), ('rec', tuple(d.items()))))
                for e in appended(p, cont):
                    got.append((K(size), e[3][0] if len(e[3]) == 1 else ('{}', tuple(e[3]))))
                what = "directory" if cont == dirs else "file"
                if len(got) != 1 or got[0][0] != K(n):
                    c.fail(what, "%s %d is entered %s" % (what, n, "as number %s" % show(got[0][0]) if got else "nowhere"), G)
                    continue
                v = got[0][1]
                if cont == dirs:
                    ok = v == nm
                else:
                    pr = pair(v)
                    ok = pr is not None and pr[1] == nm and pr[0] is not None and uncast(pr[0]) == param(G, 2)
                if not ok:
                    c.fail(what, "%s %d is entered as %s" % (what, n, show(v)), G)
    # before anything is defined both tables hold the entry number 0
    for C in prog.functions:
        if C.cls == H and C.name == "CULineInfoHandler" and C.d.get("access") != "private" and len(C.params) >= 3 and C.body is not None:
            for p in Rows(prog, C).paths():
                res.count(obligations=2)
                for cont, what in ((dirs, "directory"), (files, "file")):
                    n = len(appended(p, cont))
                    if n != 1:
                        Chk(res, C).fail("start", "%d entries of the %s table exist before the first definition (1 is needed for numbering from 1)" % (n, what), C)
    return dirs, files


def check(prog, tier):
    res = Result("effects of the line-table callbacks: every row is filed once under its address with the directory, file, line and discriminator it states, "
                 "tables keep the numbers of their entries, and ends of sequences end only their own rows")
    T = Tables(prog, res)
    dirs, files = tables(prog, res)
    row(prog, res, T, dirs, files)
    res.assumptions = ["single-level line tables; no restriction to sampled functions", "the line-table reader delivers numbered entries in order (decided separately)"]
    return res
