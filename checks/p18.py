"""The ELF reader reports the file's headers, sections, segments, symbols and notes as the ELF layout defines them."""
from wire import Wire, K, terms, walk1
import wire
from paths import BOOL, simp, paths, linear, norm, truth, negated, conj, known
import ir
from core import Result

NS = "devtools_crosstool_autofdo::"
LAYOUT = {1: dict(hdr=52, sh=40, ph=32), 2: dict(hdr=64, sh=64, ph=56)}
SHT_SYMTAB, SHT_NOTE, SHT_DYNSYM = 2, 7, 11
XINDEX = 0xffff


def show(t):
    s = wire.show(t)
    return s if isinstance(s, str) else ", ".join(str(wire.show(x)) for x in t)


def isop(t, o):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'op' and t[1] == o


def upright(v):
    """a choice with nothing on its first side, turned around"""
    if isop(v, 'phi') and v[2][1] == ('none',):
        return ('op', 'phi', (negated(v[2][0]), v[2][2], v[2][1]))
    return v


def flat(ps):
    """every effect of the paths, with the path it is on; loops are entered"""
    for p in ps:
        for e in p.effects:
            yield p, e
            if e[0] == 'loop':
                yield from flat(e[3])


class Arch:
    """what the constructor of one instantiation reads, and into which members"""

    def __init__(self, prog, res, impl, cls):
        self.impl, self.cls, self.L = impl, cls, LAYOUT[cls]
        self.hdr = self.sh = self.ph = self.sh0 = None
        self.shn, self.phn = [], []
        ctor = [F for F in prog.functions if F.q.startswith(impl) and F.cls and F.q.split("::")[-1].split("<")[0] == F.cls.split("::")[-1].split("<")[0]
                and len(F.params) == 2 and F.body is not None]
        res.require(len(ctor) == 1, "constructor of " + impl)
        self.ctor = C = ctor[0]
        w = Wire(prog, {}, inline=lambda G: "Elf" in G.q)
        w.reach, w.rets, w.depth = set(), True, 1
        items = w.run(C)
        # the reads, in the form (destination, size, offset) with their conditions
        def env(t):
            if t[0] == 'call' and t[1] == 'pread' and len(t[3]) == 4:
                return t[3][2]
            if t[0] == 'call' and t[1] == 'memcmp':
                return K(0)
            return None
        self.reads = []
        sets = {}
        for p, e in flat(paths(items, env)):
            if e[0] == 'set' and e[1][0] == 'm' and e[1][1][0] == 'this' and e[2][0] == 'new':
                sets[e[2]] = e[1][2]
            if e[0] == 'sink' and e[1] == 'pread':
                r = (e[3][1], e[3][2], e[3][3], p, e[4])
                if not any(x[:3] == r[:3] for x in self.reads):
                    self.reads.append(r)
        hdr = None
        for d, n, o, p, nd in self.reads:
            if o == K(0) and d[0] == 'm':
                hdr = d
                res.count(layout=1)
                if n != K(self.L["hdr"]):
                    res.add("header size|%d" % cls, C.where(nd), "the %d-bit file header is read with a size of %s bytes, not %d" % (32 * cls, show(n), self.L["hdr"]))
        res.require(hdr is not None, "read of the file header by " + impl)
        self.hdr = hdr[2]
        for d, n, o, p, nd in self.reads:
            if o[0] == 'm' and o[1] == hdr and o[2] == "e_shoff":
                if d[0] == 'm' and n == K(self.L["sh"]):
                    self.sh0 = d[2]
                elif d[0] == 'm' or d in sets:
                    self.sh, self.shnode = d[2] if d[0] == 'm' else sets[d], nd
                    self.shn.append((n, p.conds))
            if o[0] == 'm' and o[1] == hdr and o[2] == "e_phoff":
                self.ph, self.phnode = d[2] if d[0] == 'm' else sets.get(d), nd
                self.phn.append((n, p.conds))
        for what, v in (("section headers at e_shoff", self.sh), ("program headers at e_phoff", self.ph), ("first section header", self.sh0)):
            res.count(layout=1)
            if v is None:
                res.add("read|%s|%d" % (what, cls), C.where(C.body), "no read of the %s into a member of the %d-bit reader" % (what, 32 * cls))
        self.ok = None not in (self.sh, self.ph, self.sh0)

    def counts(self, res):
        """number of sections and segments, ordinary and extended numbering"""
        L, C = self.L, self.ctor
        for shnum, want, nm in ((5, {(): 5 * L["sh"]}, "the number in the file header"), (0, None, "sh_size of the first section header when e_shnum is 0")):
            w = want if want else {(('m', ('m', self.this(), self.sh0), "sh_size"),): L["sh"]}
            for n in self.under(self.shn, self.env(shnum=shnum)):
                res.count(layout=1)
                if linear(n) != w:
                    res.add("shnum|%d|%d" % (shnum, self.cls), C.where(self.shnode), "the section headers read are not %s times the size of a section header: %s" % (nm, show(n)))
        for n in self.under(self.phn, self.env(shnum=5, phnum=7)):
            res.count(layout=1)
            if linear(n) != {(): 7 * L["ph"]}:
                res.add("phnum|%d" % self.cls, C.where(self.phnode), "the program headers read are not e_phnum times the size of a program header: %s" % show(n))
        for n in self.under(self.phn, self.env(shnum=0, phnum=XINDEX, s0={"sh_info": 70000, "sh_link": 0, "sh_size": 66000})):
            res.count(layout=1)
            if linear(n) != {(): 70000 * L["ph"]}:
                res.add("phnum|many|%d" % self.cls, C.where(self.phnode), "with e_phnum 0xffff the number of program headers is not sh_info of the first section header: %s" % show(n))
        # the first section header is read before it is relied on
        z = [p for d, n, o, p, nd in self.reads if d[0] == 'm' and d[2] == self.sh0]
        cond = ('op', '==', (('m', ('m', self.this(), self.hdr), 'e_shnum'), K(0)))
        res.count(layout=1)
        rare = [self.env(shnum=0, strndx=x, phnum=y) for x, y in ((7, 7), (XINDEX, 7), (7, XINDEX))]
        if not any(known(cond, p.conds) is not False for p in z) or z and not all(
                any(not any(truth(simp(c, e)) is False for c in p.conds) for p in z) for e in rare):
            res.add("first section|%d" % self.cls, C.where(C.body), "the first section header is not read when e_shnum is 0")

    def under(self, l, env):
        """the values in l that the assumption allows"""
        return [simp(n, env) for n, cs in l if not any(truth(simp(c, env)) is False for c in cs)]

    def this(self):
        return ('this', self.ctor.cls)

    def env(self, shnum=30, strndx=29, phnum=7, s0=None):
        """assumed header values; base is the object whose members are read"""
        vals = {"e_shnum": shnum, "e_shstrndx": strndx, "e_phnum": phnum}

        def env(t):
            if t[0] == 'm' and t[1][0] == 'm' and t[1][2] == self.hdr and t[2] in vals:
                return K(vals[t[2]])
            if s0 and t[0] == 'm' and t[1][0] == 'm' and t[1][2] == self.sh0 and t[2] in s0:
                return K(s0[t[2]])
            if t[0] == 'call' and t[1] == 'pread' and len(t[3]) == 4:
                return t[3][2]
            return None
        return env


class Reader:
    """a public method of the reader under assumed file facts, in terms of file contents"""

    def __init__(self, prog, res, arch, api, fields, sect):
        self.prog, self.res, self.arch, self.api, self.fields, self.sect = prog, res, arch, api, fields, sect
        self.searches = set()

    def function(self, name, n):
        c = [F for F in self.prog.functions if F.cls == NS + "ElfReader" and F.q.endswith("ElfReader::" + name) and len(F.params) == n and F.body is not None]
        self.res.require(len(c) == 1, "ElfReader::%s" % name)
        return c[0]

    def run(self, name, n, dwp=None, **kw):
        F = self.function(name, n)
        w = Wire(self.prog, {}, inline=lambda G: "Elf" in G.q and not G.q.endswith("::SectionNamesMatch") or "SymbolIterator" in G.q)
        w.reach, w.rets, w.depth = set(), True, 1
        items = w.run(F)
        a = self.arch
        e0 = a.env(**kw)
        this = ('this', F.cls)
        fd = self.fields["fd"]
        impls = self.fields["impl"]

        def env(t):
            v = e0(t)
            if v is not None:
                return v
            k = t[0]
            if k == 'at' and t[1][0] == 'var' and t[2] == K(4):
                return K(a.cls)
            if k == 'at' and t[1][0] == 'var' and t[2] == K(5):
                return K(1)
            if k == 'call' and t[1] == 'memcmp':
                return K(0)
            if k == 'op' and t[1] in ('<', '>=', '==', '!=') and t[2][0] == ('m', this, fd) and t[2][1][0] == 'k':
                return K({'<': 7 < t[2][1][1], '>=': 7 >= t[2][1][1], '==': 7 == t[2][1][1], '!=': 7 != t[2][1][1]}[t[1]])
            if k == 'op' and t[1] in ('==', '!=') and t[2][1] == K(0):
                x = t[2][0]
                if x[0] == 'm' and x[1] == this and x[2] in impls:
                    return K(t[1] == '!=')
                if x[0] == 'at' or x[0] == 'lv' and x[1][0] == 'at':     # a section not opened yet
                    return K(t[1] == '==')
                if x[0] in ('reader', 'new', 'contents'):
                    return K(t[1] == '!=')
                if x[0] == 'op' and x[1] == '+' and x[2][0][0] == 'contents':
                    return K(t[1] == '!=')
            if k == 'm' and t[2] == "is_dwp_" and dwp is not None:
                return K(dwp)
            if k == 'new' and t[1].startswith(NS + "ElfSectionReader") and len(t[2]) == 3:
                return ('reader', simp(t[2][2], env))
            if k == 'm':
                b = simp(t[1], env)
                if b[0] == 'reader':
                    if t[2] == self.sect["contents"]:
                        return ('contents', b[1])
                    if t[2] == self.sect["size"]:
                        return ('m', b[1], "sh_size")
                    if t[2] == self.sect["header"]:
                        return b[1]
                if b[0] == 'm' and b[1] == this and b[2] in impls and t[2] in (a.sh, a.ph):
                    return ('table', "S" if t[2] == a.sh else "P", b[2])
            if k == 'first':
                # the first section of a given type
                v = upright(simp(t[2], env))
                if isop(v, 'phi') and v[2][2] == ('none',) and v[2][1][0] == 'reader':
                    c, r = v[2][0], v[2][1]
                    if isop(c, '==') and c[2][0] == ('m', r[1], "sh_type") and r[1][0] == 'at' and r[1][2] == ('idx', t[1]) and t[3] == K(0):
                        self.searches.add(t[1])
                        return ('reader', ('bytype', c[2][1]))
            return None
        self.env = env
        ps = paths(items, env)
        for p, e in flat(ps):
            if e[0] == 'loop' and e[1] in self.searches and e[2] != K(kw.get("s0", {}).get("sh_size", 30)):
                self.res.add("search|%s|%d" % (name, a.cls), F.where(F.body), "the search for a section of a type makes %s steps in a file of 30 sections" % (show(e[2]) if e[2] else "an unknown number of"))
        return F, ps


def section_reader(prog, res):
    """which members of the section reader hold the contents, the size and the header; and that the mapping is right"""
    out = {}
    for F in prog.functions:
        if "ElfSectionReader<" not in F.q or not F.q.endswith("::ElfSectionReader") or not F.inits:
            continue
        w = Wire(prog, {}, inline=lambda G: "Elf" in G.q)
        w.reach, w.rets = set(), True
        items = w.run(F)
        hdr = [i.get("m") for i in F.inits if i.get("m") and isinstance(i.get("init"), object) and len(F.params) == 3 and
               any(x.k == "DeclRefExpr" and x.d == F.params[2]["d"] for x in walk1(i["init"]))]
        res.require(hdr, "section header kept by " + F.q)
        h = ('m', ('this', F.cls), hdr[0])
        mp = None
        sets = {}
        for p, e in flat(paths(items, lambda t: None)):
            if e[0] == 'sink' and e[1] == 'mmap':
                mp = (e[3], e[4])
            if e[0] == 'set' and e[1][0] == 'm':
                sets[e[1][2]] = (e[2], e[3])
        res.require(mp is not None, "mmap in " + F.q)
        off, size = ('m', h, "sh_offset"), ('m', h, "sh_size")
        a, nd = mp

        def sub(t):
            if t == ('param', F.params[2]["n"]):
                return h
            return None
        a = tuple(simp(x, sub) for x in a)
        res.count(mapping=2)
        page = [x for x in terms(a[5]) if isinstance(x, tuple) and x[:1] == ('op',) and x[1] in ('%', '&')]
        al = a[5]
        good = linear(al) == linear(('op', '-', (off, ('op', '%', (off, ('call', 'getpagesize', None, ()))))))
        if not good and not any(x[0] == 'call' and x[1] in ("getpagesize", "sysconf") for x in terms(al) if isinstance(x, tuple) and x):
            res.add("mmap offset|" + F.q, F.where(nd), "the mapping does not start at the page that holds the section's offset: %s" % show(al))
        ln = linear(('op', '-', (a[1], ('op', '+', (size, ('op', '-', (off, al)))))))
        if any(m for m in ln) or ln.get((), 0) < 0:
            res.add("mmap length|" + F.q, F.where(nd), "the mapping does not cover the section from its first to its last byte: length %s" % show(a[1]))
        for m, (v, n2) in sets.items():
            v = simp(v, sub)
            r = [x for x in terms(v) if isinstance(x, tuple) and x[:2] == ('call', 'mmap')]
            if r and v != r[0]:
                res.count(mapping=1)
                out["contents"] = m
                d = linear(('op', '-', (v, r[0])))
                if d != linear(('op', '-', (off, al))):
                    res.add("mmap base|" + F.q, F.where(n2), "section contents do not begin at the section's offset: mapping start + %s" % show(norm(('op', '-', (v, r[0])))))
            elif v == size:
                out["size"] = m
        out["header"] = hdr[0]
    res.require(len(out) == 3 or res.findings, "contents and size members of the section reader")
    out.setdefault("contents", "")
    if "size" not in out:
        res.add("section size", "util/symbolize/elf_reader.cc", "no member of the section reader holds sh_size as the size of the contents")
        out["size"] = ""
    return out


def check(prog, tier):
    res = Result("every value the ELF reader hands out is the header field, table entry or section byte the ELF layout assigns to it")
    rec = [R for R in prog.records.values() if R.q == NS + "ElfReader"] if isinstance(prog.records, dict) else [R for R in prog.records if R.q == NS + "ElfReader"]
    res.require(rec, "class ElfReader")
    R = rec[0]
    impls = {}
    for f in R.fields:
        t = f["t"]
        if "ElfReaderImpl<" in t:
            impls[f["n"]] = t.replace("*", "").replace("const", "").strip()
    res.require(len(impls) == 2, "the two word sizes of ElfReader")
    fds = [f["n"] for f in R.fields if f["t"] == "int"]
    res.require(len(fds) == 1, "file descriptor member of ElfReader")
    sect = section_reader(prog, res)
    archs = {}
    for cls in (1, 2):
        # the instantiation that serves files of this class is the one whose ident test asks for it
        cand = []
        for f, t in impls.items():
            v = ident_class(prog, t)
            if v == cls:
                cand.append((f, t))
        if len(cand) != 1:
            res.add("ident|%d" % cls, "util/symbolize/elf_reader.cc", "no single reader accepts exactly the files whose EI_CLASS is %d" % cls)
            continue
        archs[cls] = (cand[0][0], Arch(prog, res, cand[0][1] + "::", cls))
    for cls, (field, arch) in archs.items():
        ident(prog, res, arch)
        if not arch.ok:
            continue
        arch.counts(res)
        rd = Reader(prog, res, arch, "ElfReader", dict(fd=fds[0], impl=set(impls)), sect)
        rd.field = field
        section_fields(rd)
        segment_fields(rd)
        lookups(rd)
        symbols(rd)
        load_address(rd)
    thumb(prog, res)
    widths(prog, res, archs)
    build_id(prog, res)
    names(prog, res)
    res.explanation = ("The public operations of the ELF reader are evaluated structurally, everything they call included, for both word sizes and for the "
                       "ordinary and extended section numbering; what they return, store and hand to visitors is compared term by term with the ELF specification.")
    res.assumptions = ["mmap and pread deliver the bytes of the file", "Elf32/64 structure definitions come from the system's elf.h"]
    return res


def impl_fn(prog, impl, pred):
    return [F for F in prog.functions if F.q.startswith(impl) and F.body is not None and pred(F)]


def ident_paths(prog, impl):
    out = []
    for F in impl_fn(prog, impl + "::" if not impl.endswith("::") else impl, lambda F: len(F.params) == 2 and F.get_static if False else len(F.params) == 2):
        w = Wire(prog, {})
        w.reach, w.rets = set(), True
        items = w.run(F)
        ps = paths(items, lambda t: None)
        if any(e[0] == 'sink' and e[1] == 'pread' and e[3][1][0] == 'var' and e[3][3] == K(0) for p in ps for e in p.effects):
            out.append((F, ps))
    return out


def ident_class(prog, impl):
    for F, ps in ident_paths(prog, impl):
        for p in ps:
            if p.ret == K(1):
                for c in p.conds:
                    if isop(c, '==') and c[2][0][0] == 'at' and c[2][0][2] == K(4) and c[2][1][0] == 'k':
                        return c[2][1][1]
    return None


def ident(prog, res, arch):
    fs = ident_paths(prog, arch.impl)
    res.require(fs, "the ident test of " + arch.impl)
    for F, ps in fs:
        for p in ps:
            res.count(ident_paths=1)
            if p.ret is None or p.ret == K(0):
                continue
            def has(pred):
                return any(pred(c) for c in p.conds)
            need = [("16 identification bytes were read", lambda c: isop(c, '==') and c[2][0][:2] == ('call', 'pread') and c[2][1] == K(16) and c[2][0][3][2] == K(16)),
                    ("they begin with the ELF magic", lambda c: isop(c, '==') and c[2][0][:2] == ('call', 'memcmp') and c[2][1] == K(0) and c[2][0][3][2] == K(4)),
                    ("the class is the reader's own", lambda c: isop(c, '==') and c[2][0][0] == 'at' and c[2][0][2] == K(4) and c[2][1] == K(arch.cls)),
                    ("the byte order is the machine's", lambda c: isop(c, '==') and any(x[0] == 'at' and x[2] == K(5) for x in terms(c) if isinstance(x, tuple) and x))]
            for what, pred in need:
                if not has(pred):
                    res.add("ident|%s|%d" % (what, arch.cls), F.where(F.body), "a file is accepted as %d-bit ELF without establishing that %s" % (32 * arch.cls, what))
            # byte order: little endian passes on this machine, big endian does not
            for b, want in ((1, True), (2, False), (0, False)):
                cs = [simp(c, lambda t: K(b) if t[0] == 'at' and t[2] == K(5) else None) for c in p.conds if any(x[0] == 'at' and x[2] == K(5) for x in terms(c) if isinstance(x, tuple) and x)]
                got = not any(c == K(0) for c in cs)
                if all(truth(c) is not None for c in cs) and got != want:
                    res.add("ident|order|%d" % arch.cls, F.where(F.body), "EI_DATA %d is %s" % (b, "accepted" if got else "refused"))


def S(rd, i):
    return ('at', ('table', "S", rd.field), i)


def section_index(rd, ps, F, key):
    pass


def finds_by_name(rd, name, nparams):
    """(function, loop node, [(dwp, shnum case, index term, path, ...)])"""
    res = rd.res
    for dwp in (0, 1):
        for case, kw in (("ordinary", {}), ("extended", dict(shnum=0, strndx=XINDEX, s0={"sh_size": 100000, "sh_link": 99999}))):
            n, strndx = (30, 29) if case == "ordinary" else (100000, 99999)
            F, ps = rd.run(name, nparams, dwp=dwp, **kw)
            hits = []
            for p in ps:
                for e in p.effects:
                    if e[0] == 'loop':
                        for q in e[3]:
                            if q.done == 'ret':
                                hits.append((e, q))
            res.require(hits, "the search loop of ElfReader::" + name)
            for e, q in hits:
                if q.ret == K(0):
                    continue
                want = ('idx', e[1]) if not dwp else ('op', '-', (K(n - 1), ('idx', e[1])))
                yield F, e, q, dwp, case, n, strndx, want


def norm_idx(t):
    if isinstance(t, tuple) and t[:1] == ('at',):
        return ('at', t[1], norm(t[2]))
    if isinstance(t, tuple):
        return tuple(norm_idx(x) for x in t)
    return t


def section_fields(rd):
    res = rd.res
    info = [R for R in (rd.prog.records.values() if isinstance(rd.prog.records, dict) else rd.prog.records) if R.q == NS + "ElfReader::SectionInfo"]
    res.require(info, "ElfReader::SectionInfo")
    want_fields = [f["n"] for f in info[0].fields]
    for name, np_ in (("GetSectionInfoByName", 2), ("GetSectionByName", 2)):
        for F, e, q, dwp, case, n, strndx, want in finds_by_name(rd, name, np_):
            hdr = ('at', ('table', "S", rd.field), norm(want))
            res.count(section_lookups=1)
            where = F.where(e[4])
            key = "%s|%d|%s|%d" % (name, rd.arch.cls, case, dwp)
            if e[2] != K(n):
                res.add(key + "|all", where, "ElfReader::%s looks at %s sections of a file with %d (%s numbering)" % (name, show(e[2]) if e[2] else "an unknown number of", n, case))
            if norm_idx(q.ret) != ('contents', hdr):
                res.add(key + "|contents", where, "ElfReader::%s returns %s instead of the contents of the section it matched" % (name, show(q.ret)))
            nm = norm_idx(('op', '+', (('contents', S(rd, K(strndx))), ('m', ('at', ('table', "S", rd.field), norm(want)), "sh_name"))))
            if not any(c[0] == 'call' and c[1].endswith("SectionNamesMatch") and norm_idx(c[3]) == (('param', "section_name") if False else norm_idx(c[3])[0], nm) for c in q.conds):
                res.add(key + "|name", where, "ElfReader::%s matches a section without comparing the wanted name with the section's name in the section string table" % name)
            sets = {}
            for x in q.effects:
                if x[0] == 'set' and x[1][0] in ('m', 'param'):
                    sets[x[1][2] if x[1][0] == 'm' else "*"] = (norm_idx(x[2]), x[3])
            if name == "GetSectionByName":
                res.count(fields=1)
                v = [s for k, s in sets.items() if k == "*"]
                if not v or v[0][0] != ('m', hdr, "sh_size"):
                    res.add(key + "|size", where, "ElfReader::%s does not report the size of the section it matched" % name)
            else:
                for f in want_fields:
                    res.count(fields=1)
                    if f not in sets:
                        res.add(key + "|" + f, where, "ElfReader::%s leaves %s unset" % (name, f))
                    elif sets[f][0] != ('m', hdr, "sh_" + f):
                        res.add(key + "|" + f, F.where(sets[f][1]), "ElfReader::%s reports %s as the section's %s" % (name, show(sets[f][0]), f))


def segment_fields(rd):
    res = rd.res
    info = [R for R in (rd.prog.records.values() if isinstance(rd.prog.records, dict) else rd.prog.records) if R.q == NS + "ElfReader::SegmentInfo"]
    res.require(info, "ElfReader::SegmentInfo")
    F, ps = rd.run("GetSegmentInfo", 0)
    got = False
    for p in ps:
        for e in p.effects:
            if e[0] != 'loop':
                continue
            sets = {}
            for q in e[3]:
                for x in q.effects:
                    if x[0] == 'set' and x[1][0] == 'm' and x[2][0] == 'm':
                        sets[x[1][2]] = (x[2], x[3])
            if not sets:
                continue
            got = True
            key = "GetSegmentInfo|%d" % rd.arch.cls
            if e[2] != K(7):
                res.add(key + "|all", F.where(e[4]), "ElfReader::GetSegmentInfo reports %s segments of a file with 7 program headers" % (show(e[2]) if e[2] else "an unknown number of"))
            for f in info[0].fields:
                res.count(fields=1)
                want = ('m', ('at', ('table', "P", rd.field), ('idx', e[1])), "p_" + f["n"])
                if f["n"] not in sets:
                    res.add(key + "|" + f["n"], F.where(e[4]), "ElfReader::GetSegmentInfo leaves %s unset" % f["n"])
                elif sets[f["n"]][0] != want:
                    res.add(key + "|" + f["n"], F.where(sets[f["n"]][1]), "ElfReader::GetSegmentInfo reports %s as the segment's %s" % (show(sets[f["n"]][0]), f["n"]))
    res.require(got, "the loop over the program headers in ElfReader::GetSegmentInfo")


def lookups(rd):
    res = rd.res
    for case, kw in (("ordinary", {}), ("extended", dict(shnum=0, strndx=XINDEX, s0={"sh_size": 100000, "sh_link": 99999}))):
        n, strndx = (30, 29) if case == "ordinary" else (100000, 99999)
        F, ps = rd.run("GetSectionIndexByType", 2, **kw)
        key = "GetSectionIndexByType|%d|%s" % (rd.arch.cls, case)
        for p in ps:
            res.count(lookups=1)
            r = p.ret
            ok = r is not None and r[0] == 'first' and r[3] == K(-1)
            if ok:
                v = simp(r[2], rd.env)
                i = ('idx', r[1])
                v = upright(v)
                ok = isop(v, 'phi') and v[2][1:] == (i, ('none',)) and isop(v[2][0], '==') and set(v[2][0][2]) == {('m', S(rd, i), "sh_type"), ('param', F.params[0]["n"])}
                lp = [e for e in p.effects if e[0] == 'loop' and e[1] == r[1]]
                ok = ok and lp and linear(lp[0][2] or ('any', 0)) == linear(('op', '-', (K(n), ('param', F.params[1]["n"]))))
            if not ok:
                res.add(key, F.where(F.body), "ElfReader::GetSectionIndexByType does not return the first section from the start index on that has the wanted type, or -1: %s" % (show(r) if r else None))
        F, ps = rd.run("GetSectionByIndex", 2, **kw)
        key = "GetSectionByIndex|%d|%s" % (rd.arch.cls, case)
        hdr = S(rd, ('param', F.params[0]["n"]))
        for p in ps:
            res.count(lookups=1)
            st = [e for e in p.effects if e[0] == 'set' and e[1][:1] == ('param',)]
            if p.ret == K(0):
                continue
            if p.ret != ('contents', hdr) or not st or st[-1][2] != ('m', hdr, "sh_size"):
                res.add(key, F.where(F.body), "ElfReader::GetSectionByIndex does not return contents and size of the section with that index: %s, %s" % (show(p.ret) if p.ret else None, [show(e[2]) for e in st]))
            chk = [e for e in p.effects if e[0] == 'check' and e[1] == 'LT' and e[2] == ('param', F.params[0]["n"]) and e[3] == K(n)]
            cnd = any(isop(c, '<') and c[2] == (('param', F.params[0]["n"]), K(n)) for c in p.conds)
            if not chk and not cnd:
                res.add(key + "|bound", F.where(F.body), "ElfReader::GetSectionByIndex takes an index the file need not have")
        F, ps = rd.run("GetSectionName", 1, **kw)
        key = "GetSectionName|%d|%s" % (rd.arch.cls, case)
        for p in ps:
            res.count(lookups=1)
            if p.ret == K(0):
                continue
            want = ('op', '+', (('contents', S(rd, K(strndx))), ('m', S(rd, ('param', F.params[0]["n"])), "sh_name")))
            if p.ret is None or linear(p.ret) != linear(want):
                res.add(key, F.where(F.body), "ElfReader::GetSectionName does not return the name at sh_name in the section string table: %s" % (show(p.ret) if p.ret else None))


def symbols(rd):
    res = rd.res
    F, ps = rd.run("VisitSymbols", 4)
    sink, sbind, stype, raw = [('param', p["n"]) for p in F.params]
    seen = {}
    for p, e in flat(ps):
        if e[0] != 'loop':
            continue
        calls = [(q, x) for q in e[3] for x in q.effects if x[0] == 'sink' and x[1].endswith("::AddSymbol")]
        if not calls:
            continue
        for q in e[3]:
            if q.done in ('ret', 'break') or q.ret is not None:
                res.add("symbols|stop|%d" % rd.arch.cls, F.where(e[4]), "the walk over the symbols ends before the last one")
        for q, x in calls:
            res.count(symbol_paths=1)
            av = x[3]
            # the table walked
            tabs = {t[1][1] for a in av for t in terms(a) if isinstance(t, tuple) and t[:1] == ('contents',) and t[1][:1] == ('bytype',)}
            if len(tabs) != 1 or len(av) != 6:
                res.add("symbols|table|%d" % rd.arch.cls, F.where(x[4]), "the symbols reported do not come from one symbol table: %s" % show(av))
                continue
            ty = tabs.pop()
            H = ('bytype', ty)
            key = "symbols|%s|%d" % (show(ty), rd.arch.cls)
            seen.setdefault(ty, []).append(q)
            where = F.where(x[4])
            if e[2] is None or norm(e[2]) != norm(('op', '/', (('m', H, "sh_size"), ('m', H, "sh_entsize")))):
                res.add(key + "|all", F.where(e[4]), "the loop over the symbols does not make sh_size / sh_entsize steps: %s" % (show(e[2]) if e[2] else None))
            val = av[1]
            syms = {t[1] for a in av[2:] for t in terms(a) if isinstance(t, tuple) and t[:1] == ('m',) and t[2] in ("st_size", "st_info", "st_shndx")}
            ok = len(syms) == 1
            sym = syms.pop() if syms else ('any', 0)
            steps = [t for t in terms(sym) if isinstance(t, tuple) and t[:1] == ('lv',) or isinstance(t, tuple) and t[:1] == ('idx',)]
            i = steps[0] if steps else ('any', 0)
            if not ok or linear(sym) != linear(('op', '+', (('contents', H), ('op', '*', (i, ('m', H, "sh_entsize")))))):
                res.add(key + "|entry", where, "symbol i is not read at i times the entry size into its table: %s" % show(sym))
                continue
            # a name at offset 1 is a name
            if isop(strip_phi(av[0], q.conds), 'phi') or any(truth(simp(t[2][0], table({('m', sym, "st_name"): 1}))) == (t[2][1] == K(0))
                                                           for t in terms(av[0]) if isop(t, 'phi') and K(0) in t[2][1:]):
                res.add(key + "|unnamed", where, "a symbol is taken as nameless although its name is not at offset 0: %s" % show(av[0]))
            info = ('m', sym, "st_info")
            bind, typ = ('op', '>>', (info, K(4))), ('op', '&', (info, K(15)))
            strtab = ('contents', S(rd, ('m', H, "sh_link")))
            name = ('op', '+', (strtab, ('m', sym, "st_name")))
            wants = (("name", name), ("size", ('m', sym, "st_size")), ("binding", bind), ("type", typ), ("section", ('m', sym, "st_shndx")))
            for (what, w), got in zip(wants, (strip_phi(av[0], q.conds),) + av[2:]):
                res.count(fields=1)
                if norm(got) != norm(w):
                    res.add(key + "|" + what, where, "a symbol's %s is reported as %s" % (what, show(got)))
            # the value: as stored, except a Thumb bit cleared when adjusted values are wanted
            v = ('m', sym, "st_value")
            mach = ('m', ('m', ('m', ('this', F.cls), rd.field), rd.arch.hdr), "e_machine")
            for r in (0, 1):
                for m in (40, 62, 3):
                    for ty in (1, 2):
                        env = table({raw: r, mach: m, typ: ty})
                        if any(truth(simp(c, env)) is False for c in q.conds):
                            continue
                        res.count(fields=1)
                        got = simp(val, env)
                        adj = r == 0 and m == 40 and ty == 2
                        if not (got == v if not adj else isop(got, '&') and got[2][0] == v and got[2][1] in (K(-2), K(0xfffffffe), K(0xfffffffffffffffe))):
                            res.add(key + "|value", where, "a symbol's %s value is reported as %s (%s symbol, machine %d)" % ("raw" if r else "adjusted", show(got), "function" if ty == 2 else "data", m))
            # with no limit everything passes, with one exactly the symbols it names
            for (lim, own, other, oown, what) in ((sbind, bind, stype, typ, "binding"), (stype, typ, sbind, bind, "type")):
                for lv, sv in ((-1, 1), (0, 0), (0, 1), (2, 2), (2, 1)):
                    res.count(limits=1)
                    env = table({lim: lv, own: sv, other: -1, oown: 5})
                    shown = any(not any(truth(simp(c, env)) is False for c in y.conds) for y, _ in calls)
                    if shown != (lv < 0 or lv == sv):
                        res.add(key + "|limit " + what, where, "with symbols limited to %s %d, one of %s %d is %s" % (what, lv, what, sv, "reported" if shown else "left out"))
            # the sink's filter sees the same entry
            for t in [t for cc in q.conds for t in terms(cc) if isinstance(t, tuple) and t[:2] == ('op', '()') and len(t[2]) == 7]:
                res.count(filters=1)
                f = t[2][1:]
                if norm(strip_phi(f[0], q.conds)) != norm(name) or f[1:] != (v, ('m', sym, "st_size"), bind, typ, ('m', sym, "st_shndx")):
                    res.add(key + "|filter", where, "the symbol filter is asked about %s" % show(f))
    for ty in (SHT_SYMTAB, SHT_DYNSYM):
        if K(ty) not in seen:
            res.add("symbols|visited|%d|%d" % (ty, rd.arch.cls), F.where(F.body), "symbols of section type %d are never reported" % ty)


def table(d):
    return lambda t: K(d[t]) if t in d else None


def strip_phi(t, conds):
    """a name that is null for offset 0 is the name proper where the null test has passed"""
    while isop(t, 'phi'):
        if t[2][1] == K(0):
            t = t[2][2]
        elif t[2][2] == K(0):
            t = t[2][1]
        else:
            break
    return t


def rd_type(rd, F, v):
    return table({('m', ('m', ('m', ('this', F.cls), rd.field), rd.arch.hdr), "e_type"): v})


def load_address(rd):
    res = rd.res
    F, ps = rd.run("VaddrOfFirstLoadSegment", 0)
    found = False
    for p in ps:
        res.count(lookups=1)
        et = [rd_type(rd, F, x) for x in (1, 2, 3)]
        reach = [not any(truth(simp(c, e)) is False for c in p.conds) for e in et]
        if p.ret == K(0):
            if reach[1] or reach[2]:
                res.add("load|none|%d" % rd.arch.cls, F.where(F.body), "an executable or shared object is given load address 0 without looking at its segments")
            continue
        r = p.ret
        ok = r is not None and r[0] == 'first' and r[3] == K(0)
        if ok:
            v = upright(simp(r[2], rd.env))
            ph = ('at', ('table', "P", rd.field), ('idx', r[1]))
            lp = [e for e in p.effects if e[0] == 'loop' and e[1] == r[1]]
            ok = isop(v, 'phi') and v[2][0] == ('op', '==', (('m', ph, "p_type"), K(1))) and v[2][1:] == (('m', ph, "p_vaddr"), ('none',)) and lp and lp[0][2] == K(7)
        found = True
        if not ok:
            res.add("load|%d" % rd.arch.cls, F.where(F.body), "the load address is not p_vaddr of the first PT_LOAD program header: %s" % (show(r) if r else None))
    if not found:
        res.add("load|%d" % rd.arch.cls, F.where(F.body), "the load address of the first PT_LOAD program header is never returned")
    F, ps = rd.run("IsDynamicSharedObject", 0)
    for p in ps:
        res.count(lookups=1)
        want = ('op', '==', (('m', ('m', ('m', ('this', F.cls), rd.field), rd.arch.hdr), "e_type"), K(3)))
        if p.ret != want:
            res.add("dso|%d" % rd.arch.cls, F.where(F.body), "shared objects are not told by e_type ET_DYN: %s" % (show(p.ret) if p.ret else None))


SIZES = {"u64": 8, "s64": 8, "u32": 4, "s32": 4, "u16": 2, "s16": 2, "u8": 1, "s8": 1}


def widths(prog, res, archs):
    """offsets, sizes and addresses of a 64-bit file keep 64 bits"""
    sh0 = archs[2][1].sh0 if 2 in archs else None
    for F in prog.functions:
        q = F.q
        if F.body is None or not (q.startswith(NS + "ElfReader::") or "Elf64>" in q and q.split("<")[0].split("::")[-1] in (
                "ElfSectionReader", "SymbolIterator", "ElfReaderImpl")):
            continue
        for n in F.walk():
            if not n.k.endswith("CastExpr") or not n.ch or n.ch[0].get("s") not in ("u64", "s64") or SIZES.get(n.get("s"), 8) > 4:
                continue
            x = ir.strip(n.ch[0])
            res.count(conversions=1)
            if ir.cval(n) is not None or any(y.k == "UnaryExprOrTypeTraitExpr" for y in walk1(x)):
                continue
            if x.k == "MemberExpr" and x.n == "sh_size" and x.ch and ir.strip(x.ch[0]).get("n") == sh0:
                continue            # a number of sections
            if not any(y.k == "MemberExpr" and (y.get("s") in ("u64", "s64")) for y in walk1(x)):
                continue
            if any(y.k == "BinaryOperator" and y.op == "&" and any(ir.cval(z) is not None for z in y.ch) for y in [x]):
                continue
            res.add("width|%s|%s" % (F.q.split("::")[-1], show_node(x)), F.where(n), "%s: %s of a 64-bit file is cut to %d bits" % (
                F.q, show_node(x), 8 * SIZES[n.s]))


def show_node(n):
    return " ".join(y.n for y in walk1(n) if y.k == "MemberExpr" and y.get("s") in ("u64", "s64"))


def thumb(prog, res):
    """where a symbol value is changed at all: an ARM function symbol's lowest bit is cleared"""
    for F in prog.functions:
        if "ElfReaderImpl<" not in F.q or F.body is None:
            continue
        sp = [p for p in F.params if "Sym" in (p.get("t") or "") and "Sink" not in p["t"] and not (p.get("t") or "").startswith("const")]
        if not sp:
            continue
        w = Wire(prog, {}, inline=lambda G: "Elf" in G.q)
        w.reach, w.rets = set(), True
        for p, e in flat(paths(w.run(F), lambda t: None)):
            if e[0] != 'set' or not (e[1][0] == 'm' and any(e[1][1] == ('param', q["n"]) for q in sp)):
                continue
            res.count(adjustments=1)
            sym = e[1][1]
            v = ('m', sym, "st_value")
            ok = e[1] == v and isop(e[2], '&') and e[2][2][0] == v and e[2][2][1] in (K(-2), K(0xfffffffe), K(0xfffffffffffffffe))
            arm = any(isop(c, '==') and c[2][0][0] == 'm' and c[2][0][2] == "e_machine" and c[2][1] == K(40) for c in p.conds)
            fn = any(isop(c, '==') and c[2] == (('op', '&', (('m', sym, "st_info"), K(15))), K(2)) for c in p.conds)
            if not (ok and arm and fn):
                res.add("adjust|" + F.q, F.where(e[3]), "a symbol is changed other than by clearing the lowest bit of an ARM function's value: %s := %s" % (show(e[1]), show(e[2])))


def build_id(prog, res):
    c = [F for F in prog.functions if F.q.endswith("ElfReader::GetBuildId") and F.cls == NS + "ElfReader" and F.body is not None]
    res.require(len(c) == 1, "ElfReader::GetBuildId")
    F = c[0]
    w = Wire(prog, {}, inline=lambda G: not (G.cls or "").endswith("ElfReader") and "Elf" in G.q)
    w.reach, w.rets, w.depth = set(), True, 2
    ps = paths(w.run(F), lambda t: None)
    notes = 0
    for p, e in flat(ps):
        if e[0] != 'loop' or e[2] is None:
            continue
        hexes = [x for q in e[3] for x in q.effects if x[0] == 'set' and any(isinstance(t, tuple) and t[:1] == ('str',) and t[1] == "0123456789abcdef" for t in terms(x[2]))]
        if not hexes:
            continue
        notes += 1
        note = None
        for x in hexes:
            b = [t for t in terms(x[2]) if isinstance(t, tuple) and t[:1] == ('at',) and t[1][:1] == ('m',) and t[2] == ('idx', e[1])]
            tgt = x[1]
            while tgt[0] == 'lv':
                tgt = tgt[1]
            if not b or tgt[0] != 'at':
                res.add("build id|byte", F.where(x[3]), "a build ID digit is not taken from the note's byte of the same number")
                continue
            note = b[0][1][1]
            hi = any(isop(t, '>>') and t[2] == (b[0], K(4)) for t in terms(x[2]))
            lo = any(isop(t, '&') and t[2] == (b[0], K(15)) for t in terms(x[2]))
            want = {(('idx', e[1]),): 2}
            if lo and not hi:
                want[()] = 1
            res.count(digits=1)
            for v in (0, 0x5a, 0x7f, 0x80, 0xa5, 0xff):
                for t in terms(x[2]):
                    if isinstance(t, tuple) and t[:1] == ('at',) and len(t) > 2 and t[1][:1] == ('str',) and t[1][1] == "0123456789abcdef":
                        g = simp(t[2], table({b[0]: v}))
                        if g[0] == 'k' and g[1] != (v >> 4 if hi and not lo else v & 15):
                            res.add("build id|digit", F.where(x[3]), "a half of byte %d of the build ID becomes digit %d" % (v, g[1]))
            if hi == lo or linear(tgt[2]) != want:
                res.add("build id|digit", F.where(x[3]), "the %s half of byte i becomes digit %s" % ("high" if hi else "low", show(tgt[2])))
        if len(hexes) < 2:
            res.add("build id|digits", F.where(e[4]), "not every byte of the build ID becomes two digits")
        if note is None:
            continue
        if e[2] != ('m', note, "descsz"):
            res.add("build id|length", F.where(e[4]), "the build ID is not as long as its note says: %s bytes" % show(e[2]))
        # what was established on the way here
        conds = list(path_to(ps, e))
        def has(pred):
            return any(pred(c) for c in conds)
        res.count(note_steps=1)
        at = note[1] if note[0] == 'lv' else None
        up = w.updates.get(note[2], {}).get(at) if at else None

        def r4(x):
            return ('op', '&', (('op', '+', (x, K(3))), K(-4)))
        if up is not None:
            up = settle(up, conds)
            want = linear(('op', '+', (('op', '+', (note, K(12))), ('op', '+', (r4(('m', note, "namesz")), r4(('m', note, "descsz")))))))
            if signed(linear(up)) != signed(want):
                res.add("build id|next", F.where(e[4]), "after a note the reader goes on at %s" % show(norm(up)))
        else:
            res.add("build id|next", F.where(e[4]), "the notes of a section are not walked one after another")
        for what, pred in (("the note's type is NT_GNU_BUILD_ID", lambda c: isop(c, '==') and c[2] == (('m', note, "type"), K(3))),
                           ("the owner's name is 4 bytes long", lambda c: isop(c, '==') and c[2] == (('m', note, "namesz"), K(4))),
                           ("the owner is GNU", lambda c: isop(c, '==') and c[2][0][:2] == ('call', 'memcmp') and c[2][1] == K(0) and c[2][0][3][2] == K(4))):
            res.count(note_conditions=1)
            if not has(pred):
                res.add("build id|" + what, F.where(e[4]), "a note is taken for the build ID without establishing that %s" % what)
        res.count(note_conditions=1)
        d = ('m', note, "descsz")
        bounded = False
        for c in conds:
            if c[0] == 'op' and c[1] in ('<', '<=', '>', '>=') and len(c[2]) == 2:
                l = linear(('op', '-', c[2]))
                if c[1] in ('>', '>='):
                    l = {m: -v for m, v in l.items()}
                # d + 16 - (end - note) <= 0
                if l.get((d,)) == 1 and len([m for m in l if m]) >= 3 and any(v == 1 and m and m != (d,) for m, v in l.items()) and any(v == -1 for m, v in l.items() if m):
                    if l.get((), 0) >= 16 - (0 if c[1] in ('<=', '>=') else 1):
                        bounded = True
        for n in (8, 16, 20):
            res.count(note_conditions=1)
            if any(truth(simp(c, table({d: n}))) is False for c in conds):
                res.add("build id|short", F.where(e[4]), "a build ID of %d bytes is not reported" % n)
        # the note's own header lies inside the section whatever is done with it
        lp = [x for _, x in flat(ps) if x[0] == 'loop' and note[0] == 'lv' and x[1] == note[2]]
        for x in lp:
            res.count(note_conditions=1)
            common = [c for c in (x[3][0].conds if x[3] else ()) if all(c in q.conds for q in x[3])]
            g = w.guards.get(x[1])
            common += conj(g) if g is not None else []
            if not any(inside(c, note, 12) for c in common):
                res.add("build id|header", F.where(x[4]), "the header of a note is read without establishing that it lies inside the note section")
        if not bounded:
            res.add("build id|bound", F.where(e[4]), "the bytes of the build ID are read without establishing that they lie inside the note section")
    res.require(notes, "the loop that prints the build ID")
    # all note sections are looked at
    idx = [q for u in w.updates.values() for q, v in u.items() if v[0] == 'call' and v[1].endswith("::GetSectionIndexByType")]
    ok = False
    for u, up in w.updates.items():
        for q, v in up.items():
            if v[0] == 'call' and v[1].endswith("::GetSectionIndexByType"):
                ok = ok or v[3] == (K(SHT_NOTE), ('op', '+', (('lv', q, u), K(1))))
    first = [e for p in ps for e in p.effects if e[0] == 'sink' and e[1].endswith("::GetSectionIndexByType") and e[3] == (K(SHT_NOTE), K(0))]
    res.count(note_steps=1)
    if idx and not (ok and first):
        res.add("build id|sections", F.where(F.body), "the note sections are not all looked at, one after another from the first")


def inside(c, note, n):
    """the condition says that n bytes from the note on there is still section"""
    if not (c[0] == 'op' and c[1] in ('<', '<=', '>', '>=') and len(c[2]) == 2):
        return False
    l = linear(('op', '-', c[2]))
    if c[1] in ('>', '>='):
        l = {m: -v for m, v in l.items()}
    return l.get((note,)) == 1 and any(v == -1 for m, v in l.items() if m) and l.get((), 0) >= n - (0 if c[1] in ('<=', '>=') else 1)


def signed(l):
    """masks written as unsigned and as signed constants are the same mask"""
    def fix(t):
        if isinstance(t, tuple):
            if t[:1] == ('k',) and len(t) == 2 and isinstance(t[1], int) and t[1] >= 1 << 31:
                return K(t[1] - (1 << 64) if t[1] >= 1 << 63 else t[1] - (1 << 32) if t[1] < 1 << 32 else t[1])
            return tuple(fix(x) for x in t)
        return t
    return {fix(k): v for k, v in l.items()}


def settle(t, conds):
    return simp(t, lambda x: K(known(x, conds)) if x[0] == 'op' and x[1] in BOOL and known(x, conds) is not None else None)


def names(prog, res):
    """a section is found by its name, or a .debug_ section by the name its .zdebug_ form carries"""
    for F in prog.functions:
        if not F.q.endswith("ElfReader::SectionNamesMatch") or F.body is None:
            continue
        w = Wire(prog, {}, inline=lambda G: True)
        w.reach, w.rets = set(), True
        a, b = [('param', p["n"]) for p in F.params]
        items = w.run(F)

        def env(dbg, zdbg, rest, same):
            def e(t):
                if t[0] == 'call' and t[1] in ("find", "compare", "rfind", "strncmp", "starts_with", "StartsWith", "memcmp"):
                    s = [x[1] for x in terms(t) if isinstance(x, tuple) and x[:1] == ('str',)]
                    who = a if a in terms(t) else b if b in terms(t) else None
                    if len(s) == 1 and who is not None and (who, s[0]) in ((a, ".debug_"), (b, ".zdebug_")):
                        hit = dbg if who == a else zdbg
                        return K(hit) if t[1].lower().startswith("start") else K(0 if hit else -1)
                if t[0] == 'op' and t[1] in ('==', '!=') and set(t[2]) == {a, b}:
                    return K(same == (t[1] == '=='))
                if t[0] == 'op' and t[1] in ('==', '!=') and len(t[2]) == 2:
                    x = [(z[2][0], z[2][1]) if z[0] == 'new' and len(z[2]) >= 2 else (z[2], z[3][0]) if z[:2] == ('call', 'substr') and z[3] else None for z in t[2]]
                    if None not in x and {y[0] for y in x} == {a, b}:
                        d = dict(x)
                        return K((rest if d[a] == K(7) and d[b] == K(8) else False) == (t[1] == '=='))
                return None
            return e
        for dbg, zdbg, rest, same in ((True, True, True, False), (True, True, False, False), (True, False, False, True), (True, False, False, False),
                                      (False, False, False, True), (False, False, False, False), (False, True, True, False), (True, False, True, False)):
            res.count(name_cases=1)
            for p in paths(items, env(dbg, zdbg, rest, same)):
                want = same or dbg and zdbg and rest
                r = simp(p.ret, env(dbg, zdbg, rest, same)) if p.ret is not None else None
                if r is None or truth(r) is None or truth(r) != want:
                    res.add("names", F.where(F.body), "two section names that are %s, %s, are %s" % (
                        "equal" if same else "different", "a .debug_ name and the .zdebug_ form of %s" % ("it" if rest else "another") if dbg and zdbg else "not a .debug_ and .zdebug_ pair",
                        "not recognised as a match or mismatch" if r is None or truth(r) is None else "taken to match" if truth(r) else "taken to differ"))


def path_to(ps, loop):
    for p in ps:
        for e in p.effects:
            if e is loop:
                return p.conds
            if e[0] == 'loop':
                r = path_to(e[3], loop)
                if r is not None:
                    return tuple(p.conds) + tuple(r)
    return None
