"""A function record holds what the debug info states, in whatever form it is encoded."""
import vn
from vn import K, atom, add, Interp
from core import Result
from dwarf import *
from ir import strip
from checks.p03 import fld, logic

CONST = {0x0b: "data1", 0x05: "data2", 0x06: "data4", 0x07: "data8", 0x0f: "udata", 0x0d: "sdata", 0x21: "implicit_const"}
UREF = {0x11: "ref1", 0x12: "ref2", 0x13: "ref4", 0x14: "ref8", 0x15: "ref_udata"}
ADDR = {0x01: "addr", 0x1b: "addrx", 0x29: "addrx1", 0x2a: "addrx2", 0x2b: "addrx3", 0x2c: "addrx4", 0x1f01: "GNU_addr_index"}
RANGES = {0x17: "sec_offset", 0x06: "data4", 0x07: "data8", 0x23: "rnglistx"}
SECOFF = {0x17: "sec_offset", 0x06: "data4", 0x07: "data8"}
AT = dict(low_pc=0x11, high_pc=0x12, abstract_origin=0x31, specification=0x47, ranges=0x55, call_file=0x58, call_line=0x59,
          decl_line=0x3b, GNU_discriminator=0x2136, name=0x03, linkage_name=0x6e, MIPS_linkage_name=0x2007,
          str_offsets_base=0x72, addr_base=0x73, rnglists_base=0x74, GNU_ranges_base=0x2132, GNU_addr_base=0x2133)
SUB, INL, CU, SKEL = 0x2e, 0x1d, 0x11, 0x4a
HANDLER = "InlineStackHandler"
REC = NS + "SubprogramInfo"


class Run:
    """one attribute delivered to the handler, in one situation"""

    def __init__(self, prog, F, attr, form, tag=SUB, infun=True, named=False, empty_ranges=False, version=5):
        self.calls = []
        self.tag, self.infun, self.named, self.empty = tag, infun, named, empty_ranges
        ps = {F.params[1]["n"]: K(attr), F.params[2]["n"]: K(form)}
        self.data = atom(('param',) + vn.shape_bits(F.params[3]["s"]) + (F.params[3]["n"],))
        ip = Interp(prog, intercept=self.intercept, assume=lambda v: logic(v, self.leaf),
                    inline=lambda G: not (G.cls or "").endswith(("LineInfo", "AddressRangeList")),
                    consts=lambda loc: version if loc[0] == 'f' and loc[1] == ('o', 'this') and 'version' in str(loc[2]) else None)
        self.rets, self.out = vn.run(ip, F, params=ps)
        out = self.out or {}
        self.record = {k[2]: v for k, v in out.items() if k[0] == 'f' and k[1][0] == '*' and self.isrec(k[1])}
        self.member = {k[2]: v for k, v in out.items() if k[0] == 'f' and k[1] == ('o', 'this')}
        self.bound = {k[2]: v for k, v in out.items() if k[0] == 'f' and k[2] in ('first', 'second') and k[1][0] == 'el'}

    def isrec(self, loc):
        return depends(loc, lambda a: a[0] == 'callw' and str(a[3]).startswith("std::") and str(a[3]).endswith("::back"))

    def intercept(self, ip, n, fname, av, st, fr):
        nm = short(n)
        if n.k == "CXXMemberCallExpr" and n.virt and fr.count('/') < 3:
            for G in ip.prog.functions:     # the handler calling itself
                if G.cls == NS + HANDLER and G.q.endswith("::" + nm) and G.blocks and n.ch[0].k == "MemberExpr" and (
                        not n.ch[0].ch or strip(n.ch[0].ch[0]).k == "CXXThisExpr"):
                    return ip.enter(st, G, n, av, ('addr', ('o', 'this')), fr)
        if n.k == "CXXMemberCallExpr":
            obj = n.ch[0].ch[0] if n.ch[0].ch else None
            own = "AddressRangeList" if "unsigned long long, unsigned long long" in fname_full(n) else None
            if fname.startswith("std::basic_string") and nm in ("empty", "size", "length"):
                return K(int((nm == "empty") != self.named)) if nm == "empty" else K(5 if self.named else 0)
            if fname.startswith("std::vector") and nm in ("empty", "size"):
                full = fname_full(n)
                if "SubprogramInfo" in full:
                    return K(int(self.infun)) if nm == "size" else K(int(not self.infun))
                if own:
                    return K(int(not self.empty)) if nm == "size" else K(int(self.empty))
            if fname.startswith("std::vector") and nm == "back" and "DwarfTag" in fname_full(n):
                return K(self.tag)
            if fname.startswith("std::vector") and nm in ("front", "at") and n.ch[0].ch:
                o = n.ch[0]
                loc = ('*', ip.val(st, o.ch[0], fr)) if o.arrow else ip.lval(st, o.ch[0], fr)
                return ('lref', ('el', loc, av[0] if av else K(0)))
            if nm in ("assign", "operator=", "push_back", "emplace_back") or (n.cls or "").endswith("AddressRangeList") or \
                    fname.startswith(NS + "AddressRangeList"):
                self.calls.append((nm, tuple(av), fname))
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and fname.startswith("std::vector"):
            return ('lref', ('el', ip.lval(st, n.ch[1], fr), av[1]))
        elif n.k == "CXXOperatorCallExpr" and n.op == "=" and "basic_string" in fname_full(n):
            self.calls.append(("assign", tuple(av[1:]), fname))
        return None

    def leaf(self, v):
        """the file and directory numbers are in range; lists are given"""
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            isdata = lambda x: depends(x, lambda t: t[0] == 'param')
            if a[0] == 'op' and len(a) == 4:
                if a[1] in ('==', '!=') and (a[2] == K(0) or a[3] == K(0)):
                    x = a[3] if a[2] == K(0) else a[2]
                    if x[0] == 'lin' and len(x[2]) == 1 and given(x[2][0][0]):
                        return a[1] == '!='
                if a[1] in ('<', '<='):
                    size = lambda x: depends(x, lambda t: t[0] == 'callw' and str(t[3]).endswith("::size"))
                    if size(a[3]) and not size(a[2]):
                        return True
                    if size(a[2]) and not size(a[3]):
                        return False
                    if a[3] == K(0):
                        return False
                    if a[2] == K(0):
                        return True
            if given(a):
                return True
        return None


def given(a):
    """input data or a member (not a local such as a check's result)"""
    return a[0] in ('param', 'load', 'bits') or a[0] == 'init' and not (a[3][0] == 'v' and 'data' not in str(a[3][1]))


def fname_full(n):
    return n.f or ""


def low32(v, x):
    """v is x, at most narrowed to 32 bits"""
    if v == x:
        return True
    b = vn.bits(v)
    a = vn.bits(x)
    return b is not None and a is not None and tuple(b[:32]) == tuple(a[:32]) and all(t == 0 or t == a[31] for t in b[32:])


def check(prog, tier):
    r = Result("abstract interpretation of the attribute handlers for every attribute of a function record in every form the "
               "standard allows for it: the record must end up with the value given, the same for every form")
    ms = methods(prog, HANDLER)
    get = lambda s: one([F for F in ms if F.q.endswith("::" + s)], HANDLER + "::" + s)
    U, S, T = get("ProcessAttributeUnsigned"), get("ProcessAttributeSigned"), get("ProcessAttributeString")
    role = {}

    def bad(F, what, name):
        r.add("%s|%s" % (F.q, name), F.where(), "%s: %s" % (F.q, what))

    def fn(form):
        return S if form in (0x0d, 0x21) else U
    # numbers
    for name in ("call_line", "GNU_discriminator", "decl_line"):
        for form, fnm in CONST.items():
            for tag in ((SUB,) if name == "decl_line" else (INL,)):
                F = fn(form)
                x = Run(prog, F, AT[name], form, tag)
                r.count(obligations=1)
                got = sorted(k for k, v in x.record.items() if low32(v, x.data))
                if x.out is None:
                    bad(F, "DW_AT_%s in form %s aborts" % (name, fnm), name)
                elif len(got) != 1:
                    bad(F, "DW_AT_%s in form %s is not recorded%s" % (name, fnm, " (%s)" % ", ".join(
                        "%s = %s" % (k, vn.show_val(v)[:40]) for k, v in x.record.items()) if x.record else ""), name)
                elif role.setdefault(name, got[0]) != got[0]:
                    bad(F, "DW_AT_%s in form %s goes to %s, other forms to %s" % (name, fnm, got[0], role[name]), name)
                elif set(x.record) - {got[0]}:
                    bad(F, "DW_AT_%s in form %s also changes %s" % (name, fnm, ", ".join(set(x.record) - {got[0]})), name)
    x = Run(prog, U, AT["decl_line"], 0x0b, INL)
    r.count(obligations=1)
    if role.get("call_line") in x.record:
        bad(U, "the declaration line of an inlined call replaces its call line", "decl_line")
    # call file and directory
    for form, fnm in CONST.items():
        F = fn(form)
        x = Run(prog, F, AT["call_file"], form, INL)
        r.count(obligations=1)
        if x.out is None:
            bad(F, "DW_AT_call_file in form %s aborts" % fnm, "call_file")
            continue
        dep = {k: v for k, v in x.record.items() if depends(v, lambda a: a[0] == 'param')}
        phi = [k for k, v in x.record.items() if k not in dep]
        files = sorted(k for k, v in dep.items() if depends(v, lambda a: a[0] == 'f' and a[2] == 'second') and not nested(v))
        dirs = sorted(k for k, v in dep.items() if nested(v))
        if len(files) != 1 or len(dirs) != 1 or phi:
            bad(F, "DW_AT_call_file in form %s does not record the file and the directory of the named entry (%s)" % (
                fnm, ", ".join("%s = %s" % (k, vn.show_val(v)[:60]) for k, v in x.record.items())), "call_file")
        elif role.setdefault("call_file", (files[0], dirs[0])) != (files[0], dirs[0]):
            bad(F, "DW_AT_call_file in form %s is recorded differently from other forms" % fnm, "call_file")
    # references
    base = unit_base(prog, ms, r)
    for name in ("abstract_origin", "specification"):
        for form, fnm in list(UREF.items()) + [(0x10, "ref_addr")]:
            x = Run(prog, U, AT[name], form)
            r.count(obligations=1)
            want = x.data if form == 0x10 else add(x.data, base)
            got = sorted(k for k, v in x.record.items() if v == want)
            if x.out is None:
                bad(U, "DW_AT_%s in form %s aborts" % (name, fnm), name)
            elif len(got) != 1 or set(x.record) - set(got):
                bad(U, "DW_AT_%s in form %s is not recorded as %s (%s)" % (
                    name, fnm, "a section offset" if form == 0x10 else "an offset from the start of its unit",
                    ", ".join("%s = %s" % (k, vn.show_val(v)[:60]) for k, v in x.record.items()) or "nothing"), name)
            elif role.setdefault(name, got[0]) != got[0]:
                bad(U, "DW_AT_%s in form %s goes to %s" % (name, fnm, got[0]), name)
    names = [n for n in role if n != "decl_line"]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            r.count(obligations=1)
            if role[a] == role[b]:
                bad(U, "DW_AT_%s and DW_AT_%s share one field of the record" % (a, b), a)
    # extent
    for form, fnm in ADDR.items():
        for empty in (False, True):
            x = Run(prog, U, AT["low_pc"], form, SUB, empty_ranges=empty)
            r.count(obligations=1)
            if x.out is None:
                bad(U, "DW_AT_low_pc in form %s aborts" % fnm, "low_pc")
            elif empty:
                if not any(nm in ("push_back", "emplace_back") and any(depends(v, lambda a: a[0] == 'param') for v in av)
                           for nm, av, f in x.calls):
                    bad(U, "DW_AT_low_pc in form %s starts no range" % fnm, "low_pc")
            elif x.bound.get('first') != x.data or 'second' in x.bound:
                bad(U, "DW_AT_low_pc in form %s is not recorded as the start of the range" % fnm, "low_pc")
    for form, fnm in list(ADDR.items()) + list(CONST.items()):
        F = fn(form) if form in CONST else U
        x = Run(prog, F, AT["high_pc"], form, SUB)
        r.count(obligations=1)
        v = x.bound.get('second')
        if x.out is None:
            bad(F, "DW_AT_high_pc in form %s aborts" % fnm, "high_pc")
            continue
        rest = add(v, x.data, -1) if v is not None else None
        low = rest is not None and rest[0] == 'lin' and rest[1] == 0 and len(rest[2]) == 1 and rest[2][0][1] == 1 and \
            rest[2][0][0][0] == 'init' and rest[2][0][0][3][-1] == 'first'
        if form in ADDR and rest != K(0):
            bad(F, "DW_AT_high_pc in form %s is an address but is not recorded as the end of the range" % fnm, "high_pc")
        elif form in CONST and not low:
            bad(F, "DW_AT_high_pc in form %s is a size but the end is not start + size" % fnm, "high_pc")
        elif 'first' in x.bound:
            bad(F, "DW_AT_high_pc in form %s moves the start of the range" % fnm, "high_pc")
    for form, fnm in RANGES.items():
        x = Run(prog, U, AT["ranges"], form, SUB, empty_ranges=True)
        r.count(obligations=1)
        reads = [av for nm, av, f in x.calls if f.startswith(NS + "AddressRangeList") and any(depends(v, lambda a: a[0] == 'param') for v in av)]
        if x.out is None:
            bad(U, "DW_AT_ranges in form %s aborts" % fnm, "ranges")
        elif not reads:
            bad(U, "DW_AT_ranges in form %s reads no range list" % fnm, "ranges")
        elif not any(v == x.data for av in reads for v in av):
            bad(U, "DW_AT_ranges in form %s does not read the list %s" % (
                fnm, "with the given number" if form == 0x23 else "at the given offset"), "ranges")
    # unit-wide values
    seen = {}
    for name, forms in (("low_pc", ADDR), ("str_offsets_base", SECOFF), ("addr_base", SECOFF), ("GNU_addr_base", SECOFF),
                        ("rnglists_base", SECOFF), ("GNU_ranges_base", SECOFF)):
        for form, fnm in forms.items():
            for tag in (CU, SKEL):
                x = Run(prog, U, AT[name], form, tag, infun=False)
                r.count(obligations=1)
                got = sorted(k for k, v in x.member.items() if v == x.data)
                if x.out is None:
                    bad(U, "DW_AT_%s of a unit in form %s aborts" % (name, fnm), "unit " + name)
                elif len(got) != 1 or set(x.member) - set(got):
                    bad(U, "DW_AT_%s of a unit in form %s is not kept" % (name, fnm), "unit " + name)
                elif seen.setdefault(name, got[0]) != got[0]:
                    bad(U, "DW_AT_%s of a unit in form %s goes to %s" % (name, fnm, got[0]), "unit " + name)
    for a, b in (("addr_base", "GNU_addr_base"), ("rnglists_base", "GNU_ranges_base")):
        r.count(obligations=1)
        if seen.get(a) != seen.get(b):
            bad(U, "DW_AT_%s and DW_AT_%s are kept apart" % (a, b), "unit " + a)
    ks = [seen.get(k) for k in ("low_pc", "str_offsets_base", "addr_base", "rnglists_base")]
    r.count(obligations=1)
    if len(set(ks)) != 4:
        bad(U, "two unit-wide values share a member", "unit values")
    # names: the linkage name wins over the plain one, in either order
    for name in ("name", "linkage_name", "MIPS_linkage_name"):
        for named in (False, True):
            x = Run(prog, T, AT[name], 0x08, SUB, named=named)
            r.count(obligations=1)
            sets = [c for c in x.calls if c[0] in ("assign", "operator=") and any(v == x.data for v in c[1])]
            want = name != "name" or not named
            if x.out is None:
                bad(T, "DW_AT_%s aborts" % name, name)
            elif want and not sets:
                bad(T, "DW_AT_%s is not recorded %s" % (name, "over an earlier name" if named else ""), name)
            elif not want and sets:
                bad(T, "DW_AT_name replaces a linkage name already recorded", name)
    r.role = role
    units(prog, ms, r, get, seen, T)
    for k in sorted(role):
        r.sample("DW_AT_%s -> %s" % (k, role[k]))
    r.roles = role
    r.require(r.counts.get("obligations", 0) > 120, "attribute/form pairs")
    r.assumptions = ["file and directory numbers in range, low pc delivered before high pc (the order every producer emits)"]
    return r


def nested(v):
    """does the value come from a second lookup (by the first entry's number)?"""
    def depth(x):
        if not isinstance(x, tuple):
            return 0
        d = max([depth(y) for y in x] or [0])
        return d + (1 if len(x) == 3 and x[0] == 'f' and x[2] == 'first' else 0)
    return depth(v) >= 1


def unit_base(prog, ms, r):
    """the member holding the offset of the current unit"""
    out = set()
    for s in ("StartCompilationUnit", "StartSplitCompilationUnit"):
        F = one([F for F in ms if F.q.endswith("::" + s)], s)
        ip = Interp(prog)
        rets, st = vn.run(ip, F)
        p = atom(('param', 64, False, F.params[0]["n"]))
        got = {k[2] for k, v in (st or {}).items() if k[0] == 'f' and k[1] == ('o', 'this') and v == p}
        r.count(obligations=1)
        if len(got) != 1:
            r.add(F.q, F.where(), "%s: the offset of the unit is not kept" % F.q)
        out |= got
    r.require(bool(out), "unit offset")
    if len(out) > 1:
        r.add("unit offset", F.where(), "%s: the offset of a split unit is kept elsewhere than that of a unit" % F.q)
    return atom(('init', 64, False, ('f', ('o', 'this'), sorted(out)[0])))


class Log:
    """one method of the handler, with the container calls and marks it makes"""

    def __init__(self, prog, F, tag=SUB, infun=True, dirs=None, truth=None, size=None, params=None):
        self.calls, self.marks, self.asked, self.sites, self.reads = [], [], [], {}, []
        self.tag, self.infun, self.dirs, self.truth, self.size = tag, infun, dirs, truth or {}, size
        ps = {F.params[i]["n"]: v for i, v in (params or {}).items()}
        self.ip = ip = Interp(prog, intercept=self.intercept, assume=lambda v: logic(v, self.leaf))
        self.rets, out = vn.run(ip, F, params=ps)
        self.out = out or {}
        self.member = {k[2]: v for k, v in self.out.items() if k[0] == 'f' and k[1] == ('o', 'this')}

    def leaf(self, v):
        if v not in self.asked:
            self.asked.append(v)
        return self.truth.get(v)

    def intercept(self, ip, n, fname, av, st, fr):
        if n.k != "CXXMemberCallExpr" or n.ch[0].k != "MemberExpr" or not n.ch[0].ch:
            return None
        nm, full, o = short(n), fname_full(n), n.ch[0]
        own = lambda: ip.val(st, o.ch[0], fr) if o.arrow else ('addr', ip.lval(st, o.ch[0], fr))
        if (n.cls or "") == REC and not n.mconst and not n.get('pm'):
            self.marks.append(own())
            return None
        if not fname.startswith("std::"):
            return None
        self.reads.append((nm, full))
        if nm in ("push_back", "emplace_back", "pop_back", "insert", "emplace"):
            self.calls.append((nm, own(), tuple(av), full))
            if "map<" in full and "vector" in full and nm.endswith("back"):
                self.sites[n.get('i'), fr] = -1 if nm == "pop_back" else 1
        if "DwarfTag" in full and nm == "back":
            return K(self.tag)
        if nm in ("empty", "size"):
            if "SubprogramInfo *" in full and "map<" not in full:
                return K(int(self.infun == (nm == "size")))
            if "basic_string" in full and "vector" in full and self.dirs is not None:
                return K(int(self.dirs == (nm == "size")))
            if "map<" in full and "vector" in full and self.size is not None and nm == "size":
                return add(self.size, K(sum(self.sites.values())))
        return None


def units(prog, ms, r, get, seen, T):
    """what carries over from one unit to the next, and what must not"""
    start, split, end = get("StartCompilationUnit"), get("StartSplitCompilationUnit"), get("EndDIE")

    def bad(F, what, name):
        r.add("%s|%s" % (F.q, name), F.where(), "%s: %s" % (F.q, what))
    # a unit without DW_AT_low_pc has base 0
    x = Log(prog, start, infun=False)
    r.count(obligations=1)
    if x.member.get(seen.get("low_pc")) != K(0):
        bad(start, "the base address of the previous unit is kept for a unit that states none", "unit base")
    # the index of a split unit's records names the map made for them
    n = atom(('size',))
    x = Log(prog, split, size=n)
    maps = [c for c in x.calls if c[0] in ("push_back", "emplace_back") and "map<" in c[3]]
    idx = {k: v for k, v in x.member.items() if depends(v, lambda a: a == ('size',))}
    r.count(obligations=1)
    if len(maps) != 1 or len(idx) != 1:
        r.require(False, "map of a split unit's records")
    elif not low32(list(idx.values())[0], n):
        bad(split, "records of a split unit are not filed in the map made for it (%s = %s)" % (
            list(idx)[0], vn.show_val(list(idx.values())[0])), "split map")
    # leaving a record: it is filed exactly when the outermost one is used
    for tag in (SUB, INL):
        asked = Log(prog, end, tag).asked
        r.require(0 < len(asked) <= 6, "conditions of %s" % end.q)
        lead = [a for a in asked if depends(a, lambda t: t[0] == 'callw' and str(t[3]).split("::")[-1] in (
            "front", "at", "operator[]", "begin", "cbegin", "data") or t[0] == 'el')]
        r.require(bool(lead), "the outermost record is consulted in %s" % end.q)
        rest = [a for a in asked if a not in lead]
        for bits_ in range(1 << len(rest)):
            tr = {a: bool(bits_ >> i & 1) for i, a in enumerate(rest)}
            for used in (True, False):
                x = Log(prog, end, tag, truth={**tr, **{a: used for a in lead}})
                rec = [c for c in x.calls if "SubprogramInfo *" in c[3]]
                push, pop = [c for c in rec if c[0] != "pop_back"], [c for c in rec if c[0] == "pop_back"]
                r.count(obligations=1)
                if not pop and not push and any(depends(a, lambda t: t[0] == 'init' and t[3][0] == 'f') for a in rest):
                    continue        # the unit's records are not read at all
                if len(pop) != 1:
                    bad(end, "the record is not left exactly once", "leave")
                elif used and len(push) != 1:
                    bad(end, "a record of a function in use is not filed for every kind of record", "file")
    # the directory of the unit that is being read
    for dirs in (False, True):
        F = T
        x = Log(prog, F, CU, infun=False, dirs=dirs, params={1: K(0x1b), 2: K(0x08)})
        r.count(obligations=1)
        if not any(c[0] in ("push_back", "emplace_back") and "basic_string" in c[3] for c in x.calls) and not any(
                depends(v, lambda a: a[0] == 'param') for v in x.member.values()):
            bad(F, "DW_AT_comp_dir of a %s unit is not kept" % ("later" if dirs else "first"), "comp_dir")
    F = get("StartDIE")
    x = Log(prog, F, SUB, dirs=True, params={1: K(SUB)})
    r.count(obligations=1)
    first = [nm for nm, full in x.reads if "basic_string" in full and "vector" in full and nm in ("front", "begin", "cbegin", "data", "at")]
    if first:
        bad(F, "a record is given the directory of the first unit, not of its own", "comp_dir of record")
    # what a kept record refers to is kept, and what that refers to
    for F in ms:
        x = Log(prog, F)
        if not x.marks or not any(c[0] == "pop_back" for c in x.calls) or F is end:
            continue
        pushed = [v for c in x.calls if c[0] in ("push_back", "emplace_back") and "SubprogramInfo" in c[3] for v in c[2]]
        for obj in x.marks:
            r.count(obligations=1)
            if obj not in pushed:
                bad(F, "a record is marked used without what it refers to being followed (%s)" % vn.show_val(obj)[:80], "closure")
        for ref in ("specification", "abstract_origin"):
            r.count(obligations=1)
            if not any(depends(v, lambda a: a[0] == 'f' and a[2] == r.role.get(ref)) for v in pushed):
                bad(F, "what a used record names as its %s is not followed" % ref, "closure " + ref)
