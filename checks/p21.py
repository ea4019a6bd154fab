"""Counts, addresses, times and names keep their kind and their 64 bits wherever they are copied."""
from core import Result
from ir import *
from flow import Flow, bits

N = "devtools_crosstool_autofdo::"
COUNT, ADDR, RUN, TIME, POS = "execution count", "address", "run-time address", "timestamp", "source position"
INSTS, LINE, START, DISCR = "instruction count", "line", "start line", "discriminator"
FUNC, FILE, DIR = "function name", "file name", "directory name"
WIDE = (COUNT, ADDR, RUN, TIME, POS)
KEY, VAL = ("*", "first"), ("*", "second")

# What the declared data of the profile holds (field -> parts).
FIELDS = []


def _d(q, *parts):
    for path, k in parts:
        FIELDS.append((N + q, path, k))


for c, u in (("SampleReader", "_"), ("Profile::ProfileMaps", "")):
    _d(c + "::address_count_map" + u, (KEY, ADDR), (VAL, COUNT))
    for m in ("range_count_map", "branch_count_map"):
        _d(c + "::" + m + u, (KEY + ("first",), ADDR), (KEY + ("second",), ADDR), (VAL, COUNT))
_d("SampleReader::total_count_", ((), COUNT))
_d("SampleReader::address_timestamp_map_", (KEY, ADDR), (VAL, TIME))
_d("Profile::ProfileMaps::start_addr", ((), ADDR))
_d("Profile::ProfileMaps::end_addr", ((), ADDR))
_d("Profile::ProfileMaps::timestamp", ((), TIME))
_d("gcov_working_set_info::min_counter", ((), COUNT))
_d("ProfileInfo::count", ((), COUNT))
_d("ProfileInfo::num_inst", ((), INSTS))
_d("ProfileInfo::target_map", (KEY, FUNC), (VAL, COUNT))
_d("SourceInfo::line", ((), LINE))
_d("SourceInfo::start_line", ((), START))
_d("SourceInfo::discriminator", ((), DISCR))
_d("SourceInfo::func_name", ((), FUNC))
_d("SourceInfo::file_name", ((), FILE))
_d("SourceInfo::dir_name", ((), DIR))
_d("Callsite::location", ((), POS))
_d("Callsite::callee_name", ((), FUNC))
_d("Symbol::pos_counts", (KEY, POS))
for f in ("total_count", "total_count_incl", "head_count"):
    _d("Symbol::" + f, ((), COUNT))
_d("Symbol::timestamp", ((), TIME))
_d("SymbolMap::map_", (KEY, FUNC))
_d("SymbolMap::count_threshold_", ((), COUNT))
_d("SymbolMap::address_symbol_map_", (KEY, ADDR))
_d("SymbolMap::name_addr_map_", (KEY, FUNC), (VAL, ADDR))
for c in ("BinaryAddressBranch", "BinaryAddressFallthrough"):
    _d(c + "::from", ((), ADDR))
    _d(c + "::to", ((), ADDR))
_d("BinaryAddressNotTakenBranch::address", ((), ADDR))
for c in ("LbrAggregation", "BranchAggregation"):
    _d(c + "::branch_counters", (VAL, COUNT))
    _d(c + "::fallthrough_counters", (VAL, COUNT))
_d("BranchFrequencies::taken_branch_counters", (VAL, COUNT))
_d("BranchFrequencies::not_taken_branch_counters", (VAL, COUNT))
for f in ("total_count_", "max_count_", "max_function_count_"):
    _d("ProfileSummaryInformation::" + f, ((), COUNT))
_d("ProfileSummaryInformation::DetailedSummary::min_count_", ((), COUNT))
_d("ProfileSummaryComputer::count_frequencies_", (KEY, COUNT))
_d("CFGNode::addr_", ((), ADDR))
_d("MMapEntry::load_addr", ((), RUN))
_d("LineIdentifier::line", ((), LINE))
_d("LineIdentifier::discriminator", ((), DISCR))
_d("LineIdentifier::file", (("first",), DIR), (("second",), FILE))
_d("SubprogramInfo::name_", ((), FUNC))
_d("SubprogramInfo::comp_directory_", ((), DIR))
_d("SubprogramInfo::callsite_directory_", ((), DIR))
_d("SubprogramInfo::callsite_filename_", ((), FILE))
_d("SubprogramInfo::callsite_discr_", ((), DISCR))
DEBUG_FIELDS = [("llvm::DWARFDebugLine::Row::Line", LINE), ("llvm::DWARFDebugLine::Row::Discriminator", DISCR),
                ("llvm::DWARFDebugLine::FileNameEntry::Name", FILE)]
DEBUG_CALLS = [("llvm::DWARFDie::getDeclLine", START), ("llvm::DWARFDie::getSubroutineName", FUNC)]
RUNTIME_SOURCES = ("::from_ip", "::to_ip")


def split(F, t, n):
    """A word is cut out of a value whose other word is taken as well."""
    src = strip(n.ch[0])
    p = path(src) if src.k != "BinaryOperator" else path(src.ch[0])
    if p is None:
        return False
    low = high = False
    for x in F.walk():
        if x.k in CAST_KINDS and x.get("ck") == "IntegralCast" and bits(x.get("s")) == 32:
            y = strip(x.ch[0])
            if path(y) == p:
                low = True
            if y.k == "BinaryOperator" and y.op == ">>" and path(y.ch[0]) == p and cval(y.ch[1]) == 32:
                high = True
            if y.k == "BinaryOperator" and y.op == "&" and path(y.ch[0]) == p and (cval(y.ch[1]) or 0) == 0xffffffff:
                low = True
    return low and high


def check(prog, tier):
    r = Result("qualifier inference: the kind of every quantity (count, address, time, position, name, line ...) is propagated "
               "from the declared profile data along every copy - variables, fields, parameters, results, container elements - "
               "through the whole program; no place may receive two kinds, and no 64-bit kind may be copied into, or come out "
               "of, a narrower place")
    fl = Flow(prog)
    for q, _, _ in FIELDS:
        fl.fieldp(q)
    used = {p[0] for p in fl.edges} | {b[0] for d in fl.edges.values() for b in d}
    live = [s for s in FIELDS if ("f", s[0]) in used]
    seeds = [((("f", q),) + path_, k, "declared %s" % k) for q, path_, k in live]
    seeds += [((("f", "llvm::DWARFDebugLine::Prologue::IncludeDirectories"), "*"), DIR, "debug information")]
    seeds += [((("f", q),), k, "debug information") for q, k in DEBUG_FIELDS]
    for f, k in DEBUG_CALLS:
        seeds += [((p,), k, "debug information") for p in fl.name if p[0] == "e" and p[1].split("(")[0] == f]
    seeds += [((p,), RUN, "recorded run-time address") for p in fl.name if p[0] == "e" and p[1].endswith(RUNTIME_SOURCES)]
    r.require(len(live) * 2 > len(FIELDS), "the declared profile data")

    # results of functions that turn run-time addresses into file addresses
    K = fl.solve(seeds, wide=WIDE)
    conv = set()
    for a, b, t, where in fl.cond:
        if RUN in K.get(a, {}) and RUN in K.get(b, {}):
            conv.add(t[0][1])
    byk = {}
    for F in prog.functions:
        byk.setdefault(F.key, F)
    grew = True
    while grew:
        grew = False
        for F in prog.functions:
            if F.key in conv or not any(RUN in fl.at_all(K, fl.local(F, p["d"])) for p in F.params if p.get("d")):
                continue
            if any(G.key in conv for n in F.walk() if is_call(n) for G in prog.callee(n, F)):
                conv.add(F.key)
                grew = True
    # a value written word by word to a file or record is no copy
    gcov = {F.key for F in prog.functions if F.name.startswith("gcov_") and not F.cls}
    blocked = {(("r", k),): (RUN,) for k in conv}
    for F in prog.functions:
        if F.key in gcov:
            for p in F.params:
                if p.get("d"):
                    blocked[fl.local(F, p["d"])] = None
    K = fl.solve(seeds, wide=WIDE, blocked=blocked)

    params = {fl.local(F, q["d"])[0]: "parameter %d of %s" % (i + 1, F.q)
              for F in prog.functions for i, q in enumerate(F.params) if q.get("d")}

    def nm(p, key=False):
        s = params[p[0]].replace(N, "") if key and p[0] in params else fl.name.get(p[0], str(p[0])).replace(N, "")
        for x in p[1:]:
            s += {"*": "[]", "first": ".first", "second": ".second"}.get(x, "." + x)
        return s

    def came(p, k, n=5):
        o = []
        while p is not None and n:
            fr, w = K[p][k]
            o.append("%s (%s)" % (nm(p), w))
            p = fr
            n -= 1
        return " <- ".join(o)

    declared = {s[0] for s in seeds}
    for p, d in K.items():
        w = fl.width.get(p)
        r.count(places=1)
        wk = [k for k in d if k in WIDE]
        if w and w[0] < 64 and wk:
            tr = fl.trunc.get(p)
            if tr and split(tr[0], p, tr[1]):
                continue
            k = wk[0]
            r.add("%s|narrow %s" % (nm(p, True), k), d[k][1] if ":" in d[k][1] else w[1],
                  "%s holds only %d bits of a 64-bit %s" % (nm(p), w[0], k), came(p, k))
        if len(d) > 1:
            # report where the kinds meet, not everything downstream
            ks = sorted(d)
            if not fl.meeting(K, p):
                continue
            if p not in declared and p[0][0] != "f" and not any(
                    len(K.get(q, ())) > 1 and (q in declared or q[0][0] == "f") for q, _, _ in fl.reach(p, blocked)):
                continue         # passed around, stored nowhere
            k = next((k for k in ks if d[k][0] is not None), ks[0])
            r.add("%s|mixed %s" % (nm(p), "/".join(ks)), d[k][1], "%s receives both a %s" % (nm(p), " and a ".join(ks)),
                  "; ".join(came(p, x, 3) for x in ks))
    # cut to fewer bits and then used as one of the kinds
    cut = {}
    for x, d in fl.edges.items():
        for y, where in d.items():
            wx, wy = fl.width.get(x), fl.width.get(y)
            if wy and wy[0] < 64 and wx and wx[0] >= 64 and y not in K and not {(fl.base.get(z[0], z[0]),) for z in (x, y)} & set(blocked):
                cut.setdefault(y, where)
    for t, (F, n) in fl.trunc.items():
        if t not in K and F.key not in gcov and not split(F, t, n):
            cut.setdefault(t, F.where(n))
    r.count(conversions=len(cut))
    for t, where in cut.items():
        for b, frm, _ in fl.reach(t, blocked):
            ks = [k for k in K.get(b, {}) if k in WIDE]
            w = fl.width.get(b)
            if ks and (w is None or w[0] >= 64):
                r.add("%s|cut %s" % (nm(t, True), ks[0]), where,
                      "%s: a %s is cut to %s bits before it reaches %s" % (nm(t), ks[0], fl.width[t][0], nm(b)))
                break
    # read from outside into a narrow variable
    for F, n, x, p in fl.external:
        w = fl.width.get(p)
        if not w or w[0] >= 64 or p in K:
            continue
        r.count(external_reads=1)
        for b, frm, where in fl.reach(p, blocked):
            ks = [k for k in K.get(b, {}) if k in WIDE]
            wb = fl.width.get(b)
            if ks and (wb is None or wb[0] >= 64):
                r.add("%s|input %s" % (nm(p), ks[0]), F.where(n),
                      "%s: a %s is read into the %d-bit %s" % (F.q.replace(N, ""), ks[0], w[0], nm(p)))
                break
    r.count(copies=sum(len(d) for d in fl.edges.values()), expressions=fl.nodes, declared=len(live), truncations=len(fl.trunc))
    for p in list(K)[:400:50]:
        r.sample("%s: %s" % (nm(p), ", ".join(sorted(K[p]))))
    r.require(r.counts.get("places", 0) > 250, "the flow of the profile data")
    r.assumptions = ["masks, shifts, remainders, products of two quantities and floating-point ratios are new quantities",
                     "the words of a value written by the GCC profile primitives are decided by P09"]
    return r
