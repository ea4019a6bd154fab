"""Branch sources and targets, and the identifiers of functions, blocks and clusters, are never confused."""
from core import Result
from frontend import Node, walk
from ir import *
from flow import Flow, bits

N = "devtools_crosstool_autofdo::"
KEY, VAL = ("*", "first"), ("*", "second")
SRC, DST = "source of a branch", "target of a branch"
FUNC, BB, BBID, CLONE, HANDLE = "function index", "block index", "block ID", "clone number", "place in the list of all blocks"
CLUSTER, COLD, SIZE, FREQ = "place of a cluster", "place of a cold cluster", "size", "frequency"
CHAIN, BADDR = "place in a chain", "address"
FNAME, SECTION, MODULE = "function name", "section name", "module name"

ROLES, IDS = [], []


def _r(q, *parts):
    for path, k in parts:
        ROLES.append((N + q, path, k))


def _i(q, k, *path):
    IDS.append((N + q, path, k))


# a branch leaves its source and arrives at its target; what runs in a
# straight line starts where a branch arrived and ends where the next one leaves
for q in ("SampleReader::%s_", "Profile::ProfileMaps::%s"):
    _r(q % "branch_count_map", (KEY + ("first",), SRC), (KEY + ("second",), DST))
    _r(q % "range_count_map", (KEY + ("first",), DST), (KEY + ("second",), SRC))
_r("AutofdoRangeSample::branch_counts", (KEY + ("first",), SRC), (KEY + ("second",), DST))
_r("AutofdoRangeSample::range_counts", (KEY + ("first",), DST), (KEY + ("second",), SRC))
_r("BinaryAddressBranch::from", ((), SRC))
_r("BinaryAddressBranch::to", ((), DST))
_r("BinaryAddressFallthrough::from", ((), DST))
_r("BinaryAddressFallthrough::to", ((), SRC))
_r("BinaryAddressNotTakenBranch::address", ((), SRC))
_r("SampledBranchIdentifier::branch_addresses_", (("*",), SRC))
RECORDED = [("::from_ip", SRC), ("::to_ip", DST)]
ROLES += [("quipper::ParsedEvent::BranchEntry::from", (), SRC), ("quipper::ParsedEvent::BranchEntry::to", (), DST),
          ("quipper::ArmSpeDecoder::Record::ip", ("addr",), SRC), ("quipper::ArmSpeDecoder::Record::tgt_br_ip", ("addr",), DST)]

_i("BbHandle::function_index", FUNC)
_i("BbHandle::bb_index", BB)
_i("CFGNode::InterCfgId::function_index", FUNC)
_i("CFGNode::IntraCfgId::bb_index", BB)
_i("CFGNode::IntraCfgId::clone_number", CLONE)
_i("CFGNode::FullIntraCfgId::bb_id", BBID)
_i("CFGNode::bb_id_", BBID)
_i("CFGNode::addr_", BADDR)
_i("CFGNode::size_", SIZE)
_i("CFGNode::freq_", FREQ)
_i("CFGEdge::weight_", FREQ)
_i("ControlFlowGraph::function_index_", FUNC)
_i("ControlFlowGraph::clones_by_bb_index_", BB, *KEY)
_i("ControlFlowGraph::names_", FNAME, "*")
_i("ControlFlowGraph::section_name_", SECTION)
_i("ControlFlowGraph::module_name_", MODULE)
_i("BinaryAddressMapper::FunctionSymbolInfo::aliases", FNAME, "*")
_i("BinaryAddressMapper::FunctionSymbolInfo::section_name", SECTION)
_i("BinaryAddressMapper::symbol_info_map_", FUNC, *KEY)
_i("CallRetInfo::callee", FUNC)
_i("FunctionClusterInfo::function_index", FUNC)
_i("FunctionClusterInfo::cold_cluster_layout_index", COLD)
_i("FunctionClusterInfo::BBCluster::layout_index", CLUSTER)
_i("NodeChain::function_index_", FUNC)
_i("NodeChain::size_", SIZE)
_i("NodeChain::freq_", FREQ)
_i("CFGNodeBundle::size_", SIZE)
_i("CFGNodeBundle::freq_", FREQ)
_i("CFGNodeBundle::ChainMappingEntry::chain_index", CHAIN)
_i("CFGNodeBundle::ChainMappingEntry::chain_offset", SIZE)
_i("NodeToBundleMapper::BundleMappingEntry::bundle_offset", SIZE)
_i("ChainCluster::size_", SIZE)
_i("ChainCluster::freq_", FREQ)
_i("ProgramCfg::cfgs_", FUNC, *KEY)
_i("BinaryAddressMapper::selected_functions_", FUNC, "*")
for q in ("BinaryAddressMapper", "(anonymous namespace)::BinaryAddressMapperBuilder"):
    _i(q + "::bb_addr_map_", FUNC, "#")
TAIL, RET, EH, FALL = "'makes a tail call'", "'returns'", "'is a landing pad'", "'falls through'"
PID, START, LEN, OFFS, FILENAME = "process", "start of a mapping", "length of a mapping", "offset in the mapped file", "file name"
META = "llvm::object::BBAddrMap::BBEntry::Metadata::"
IDS += [("llvm::object::BBAddrMap::BBEntry::ID", (), BBID), ("llvm::object::BBAddrMap::BBEntry::Size", (), SIZE),
        (META + "HasTailCall", (), TAIL), (META + "HasReturn", (), RET), (META + "IsEHPad", (), EH), (META + "CanFallThrough", (), FALL)]
_i("MMapEntry::pid", PID)
_i("MMapEntry::load_addr", START)
_i("MMapEntry::load_size", LEN)
_i("MMapEntry::page_offset", OFFS)
_i("MMapEntry::file_name", FILENAME)
# members of the messages written and read
MESSAGES = {"CFGEdgePb::NodeId::bb_index": BB, "CFGEdgePb::NodeId::function_index": FUNC, "CFGNodePb::bb_id": BBID, "CFGNodePb::size": SIZE, "CFGNodePb::freq": FREQ,
            "CFGEdgePb::weight": FREQ, "ControlFlowGraphPb::function_index": FUNC, "ControlFlowGraphPb::section_name": SECTION,
            "ControlFlowGraphPb::module_name": MODULE, "MMapEvent::pid": PID, "MMapEvent::start": START, "MMapEvent::len": LEN,
            "MMapEvent::pgoff": OFFS, "MMapEvent::filename": FILENAME,
            "MetadataPb::has_tail_call": TAIL, "MetadataPb::has_return": RET, "MetadataPb::is_landing_pad": EH, "MetadataPb::can_fallthrough": FALL}
# identifiers that are never worth comparing with one another
IDENT = {FUNC, BB, BBID, CLONE, HANDLE, CLUSTER, COLD, BADDR, CHAIN, FNAME, SECTION, MODULE}


def lookups(F, x):
    """what was passed to the calls that the variables in x were set from"""
    for y in walk(x):
        if y.k == "DeclRefExpr" and y.dk == "Var" and y.d in F.vars and F.vars[y.d].get("init") is not None:
            c = strip(F.vars[y.d]["init"])
            if isinstance(c, Node) and is_call(c) and "lookup" in (c.get("fn") or "").lower():
                yield from args(c)


def check(prog, tier):
    r = Result("qualifier inference: what a number or name stands for (source or target of a branch; index of a function, index or ID of a block, "
               "clone number, size, frequency, name ...) is propagated from the declared data along every copy through the whole program; no "
               "declared place receives two of them, and no lookup, subscript or comparison uses one for another")
    fl = Flow(prog, small=300, through=True)
    for q, _, _ in ROLES + IDS:
        fl.fieldp(q)
    used = {p[0] for p in fl.edges} | {b[0] for d in fl.edges.values() for b in d}
    params = {fl.local(F, q["d"])[0]: "parameter %d of %s" % (i + 1, F.q)
              for F in prog.functions for i, q in enumerate(F.params) if q.get("d")}

    def nm(p, key=False):
        s = params[p[0]].replace(N, "") if key and p[0] in params else fl.name.get(p[0], str(p[0])).replace(N, "")
        for x in p[1:]:
            s += {"*": "[]", "first": ".first", "second": ".second", "#": "'s subscripts"}.get(x, "." + x)
        return s

    nlive = 0
    for fam in (ROLES, IDS):
        live = [s for s in fam if ("f", s[0]) in used]
        nlive += len(live)
        seeds = [((("f", q),) + path_, k, "declared") for q, path_, k in live]
        blocked = {}
        if fam is ROLES:
            seeds += [((p,), k, "recorded") for p in fl.name if p[0] == "e" for e, k in RECORDED if p[1].endswith(e)]
            blocked = {p[:1]: None for p in fl.moved if p is not None and len(p) == 1 and p[0][0] != "f"}
        else:
            seeds += [((p,), MESSAGES[m], "recorded") for p in fl.name if p[0] == "e" for m in MESSAGES if p[1].replace("_", "::").endswith("::" + m.replace("_", "::"))]
            seeds += [((("r", F.key),), HANDLE, "result") for F in prog.functions
                      if F.name == "FindBbHandleIndexUsingBinaryAddress" and not F.file.startswith("/")]
        K = fl.solve(seeds, wide=(), blocked=blocked, translate=(SRC, DST))

        def came(p, k, n=5):
            o = []
            while p is not None and n:
                fr, w = K[p][k]
                o.append("%s (%s)" % (nm(p), w))
                p = fr
                n -= 1
            return " <- ".join(o)

        declared = {s[0] for s in seeds}
        stored = lambda q: q in declared or q[0][0] == "e" or q[0][0] == "f" and q[0][1].startswith(N)
        for p, d in K.items():
            r.count(places=1)
            if len(d) > 1:
                ks = sorted(d)
                if not fl.meeting(K, p):
                    continue
                if not stored(p) and not any(len(K.get(q, ())) > 1 and stored(q) for q, _, _ in fl.reach(p, blocked)):
                    continue
                k = next((k for k in ks if d[k][0] is not None and p in declared), None) or next((k for k in ks if d[k][0] is not None), ks[0])
                r.add("%s|mixed %s" % (nm(p, True), "/".join(ks)), d[k][1], "%s receives both a %s" % (nm(p), " and a ".join(ks)),
                      "; ".join(came(p, x, 3) for x in ks))
        one = lambda p: next(iter(K[p])) if p in K and len(K[p]) == 1 else None
        if fam is IDS:
            # what a variable that is not known to hold anything is used for
            local = lambda q: q[0][0] in "vxr"
            kind = {p: k for p, k, _ in seeds if k in IDENT}
            uses = {}
            for c, x, F, n in fl.asked:
                if one(c) in IDENT:
                    uses.setdefault(x, []).append((one(c), c, F.where(n)))
            for p in set(fl.edges) | set(uses):
                if not local(p) or K.get(p) or len(p) > 1:
                    continue
                r.count(variables=1)
                got, seen, work = {}, {p}, [p]
                while work:
                    x = work.pop()
                    for k, c, where in uses.get(x, ()):
                        got.setdefault(k, (c, where))
                    for b, where in fl.edges.get(x, {}).items():
                        if b in kind:
                            got.setdefault(kind[b], (b, where))
                        elif local(b) and one(b) in IDENT:
                            got.setdefault(one(b), (b, where))
                        elif local(b) and b not in seen and not K.get(b):
                            seen.add(b)
                            work.append(b)
                if len(got) > 1:
                    ks = sorted(got)
                    r.add("%s|used as %s" % (nm(p, True), "/".join(ks)), got[ks[-1]][1], "%s is used as a %s" % (nm(p, True), " and a ".join(ks)),
                          "; ".join("%s: %s at %s" % (k, nm(got[k][0]), got[k][1]) for k in ks))
        for c, x, F, n in fl.asked:
            a, b = one(c), one(x)
            if a and b:
                r.count(lookups=1)
            if a and b and a != b and fam is IDS and {a, b} <= IDENT:
                r.add("%s|asked for %s" % (nm(c, True), b), F.where(n), "%s, keyed by a %s, is asked for a %s" % (nm(c), a, b), came(x, b, 3))
        if fam is IDS:
            # the places of clusters order what is written
            ordered = {one(x) for _, x, _, _ in fl.asked} | {one(x) for x, y, _, _ in fl.compared} | {one(y) for x, y, _, _ in fl.compared}
            for q, path_, k in live:
                if k in (CLUSTER, COLD):
                    r.count(orders=1)
                    if k not in ordered:
                        r.add("%s|never used" % q.replace(N, ""), "", "nothing is put in order by the %s (%s)" % (k, q.replace(N, "")), "")
            # the written profile names blocks by ID, never by where they are kept
            for F in prog.functions:
                if F.body is None or not any(G.cls == N + "PropellerProfileWriter" and G.file == F.file and G.body is not None for G in prog.functions):
                    continue
                fl.cache = {}
                for n in F.walk():
                    if n.k == "CXXOperatorCallExpr" and n.op == "<<" and "stream" in (n.t or "") and "Log" not in (n.t or ""):
                        xs = args(n)[1:]
                    elif n.get("fn") in ("StrAppend", "StrCat", "FPrintF", "Format"):
                        xs = args(n)
                    else:
                        continue
                    for x in xs:
                        k = one(fl.E(F, x))
                        r.count(written=bool(k))
                        if k in (BB, FUNC, HANDLE):
                            r.add("%s|writes %s" % (F.q.replace(N, ""), k), F.where(n), "%s writes a %s to the profile" % (F.q.replace(N, ""), k), "")
            # subscripts of one container by two kinds of number
            subs = {}
            for c, x, F, n in fl.asked:
                if c[-1] == "#" and one(x) in IDENT:
                    subs.setdefault(c, {}).setdefault(one(x), (F.where(n), x))
            for c, d in subs.items():
                r.count(subscripted=1)
                if len(d) > 1:
                    ks = sorted(d)
                    r.add("%s|subscripted by %s" % (nm(c, True), "/".join(ks)), d[ks[-1]][0], "%s are both a %s" % (nm(c), " and a ".join(ks)),
                          "; ".join("%s at %s" % (k, d[k][0]) for k in ks))
            for x, y, F, n in fl.compared:
                a, b = one(x), one(y)
                if a in IDENT and b in IDENT:
                    r.count(comparisons=1)
                    if a != b:
                        r.add("%s|%s compared with %s" % (F.q.replace(N, ""), a, b), F.where(n), "%s: a %s is compared with a %s" % (F.q.replace(N, ""), a, b),
                              came(x, a, 3) + "; " + came(y, b, 3))
        else:
            # a place looked up as a branch source or target
            want = {"kFrom": SRC, "kTo": DST}
            for F in prog.functions:
                if F.body is None:
                    continue
                fl.cache = {}
                for n in F.walk():
                    if not is_call(n):
                        continue
                    if n.get("fn") == "GetSymbolNameByStartAddr":
                        asks = [(x, DST, "start of a called function") for x in args(n)]
                    elif n.get("fn") == "AddIndirectCallTarget":
                        # where the call is: what the instruction was looked up by
                        asks = [(y, SRC, "place of a call") for x in args(n) for y in lookups(F, x)]
                    else:
                        asks = []
                    for x, k, what in asks:
                        ks = K.get(fl.E(F, x), {})
                        r.count(directed=len(ks))
                        for k2 in ks:
                            if k2 != k:
                                r.add("%s|%s as %s" % (F.q.replace(N, ""), k2, what), F.where(n), "%s takes the %s for the %s" % (F.q.replace(N, ""), k2, what), "")
                    dirs = [strip(x).n for x in args(n) if strip(x).k == "DeclRefExpr" and strip(x).dk == "EnumConstant" and "BranchDirection" in (strip(x).t or "")]
                    if not dirs or dirs[0] not in want:
                        continue
                    for x in args(n):
                        ks = K.get(fl.E(F, x), {})
                        if not ks:
                            continue
                        r.count(directed=1)
                        for k in ks:
                            if k != want[dirs[0]]:
                                r.add("%s|directed %s" % (F.q.replace(N, ""), k), F.where(n),
                                      "%s looks up the %s as if it were the %s" % (F.q.replace(N, ""), k, want[dirs[0]]), "")
    r.count(declared=nlive)
    r.require(nlive * 2 > len(ROLES + IDS), "the declared data")
    return r
