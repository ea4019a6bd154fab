"""Samples reach the function, the instruction and the target they were recorded for."""
import wire
from frontend import Node
from wire import K, show, short
from core import Result
from checks import p25
from checks.p25 import Writer, bare, subs, ENV

LEVEL = "other"
MARKS = {"num_inst", "total_count", "head_count", ".count", "target_map", "address_count_map", "range_count_map", "branch_count_map", "timestamp", "global_addr_count_map_", "address_timestamp_map"}
CALLS = {"GetProfileMaps", "AddSymbolTimestamp", "AddSourceCount", "AddSymbolEntryCount", "AddIndirectCallTarget", "AddSymbol", "ProcessPerFunctionProfile",
         "ElideSuffixesAndMerge", "ComputeWorkingSets", "TraverseInlineStack", "CalculateThresholdFromTotalCount", "AggregatePerFunctionProfile", "CalculateThreshold"}
PAIRS = {"make_pair", "pair", "Range", "Branch"}
DROP = {"lookup", "GetProfileMaps", "get_static_vaddr", "GetSymbolNameByStartAddr", "GetOriginalName", "count", "contains", "EnsureEntryInFuncForSymbol"}


class Acts(Writer):
    """a function as the list of what it does to the tables, under assumptions"""

    def __init__(self, *a):
        super().__init__(*a)
        self.sets, self.parts = {}, {}

    def entered(self, F):
        return {G for G in self.prog.functions if G is not F and G.file == F.file and G.body is not None and G.name not in CALLS | DROP | {"GetAggregatedCount"}}

    def show(self, t):
        if isinstance(t, tuple) and t:
            if t[0] in ('new', 'call') and short(t[1]) in PAIRS and len(t[-1]) == 2 or t[0] == 'op' and t[1] == '{}' and len(t[2]) == 2:
                return "(%s,%s)" % tuple(self.show(x) for x in (t[-1] if t[0] != 'op' else t[2]))
            if t[0] == 'call' and short(t[1]) in DROP:
                return "%s(%s)" % (short(t[1]).replace("contains", "count"), ",".join(self.show(x) for x in t[3]))
            if t[0] == 'call' and short(t[1]) in ("at", "operator[]") and len(t[3]) == 1:
                return "%s[%s]" % (self.show(t[2]), self.show(t[3][0]))
            if t[0] == 'at' and not (t[2][0] == 'idx'):
                return "%s[%s]" % (self.show(t[1]), self.show(t[2]))
            if t[0] == 'this':
                return "this"
            if t[0] == 'var':
                return t[1].split("#")[0]
            if t[0] == 'after':
                return self.show(t[1])
            if t[0] == 'str':
                return repr(t[1])
            if t[0] == 'call' and short(t[1]).startswith("operator ") and t[2] is not None and not t[3]:
                return self.show(t[2])
            if t[0] in ('new',) and short(t[1]) in ("basic_string_view", "string_view", "basic_string", "string", "vector") and t[2] and \
                    (len(t[2]) == 1 or "allocator" in str(t[2][-1])):
                return self.show(t[2][0])
            if t[0] == 'op' and t[1] == '*' and len(t[2]) == 2 or t[0] == 'op' and t[1] in ('-', '&&', '||', '==', '!=', '<', '>', '<=', '>=') and len(t[2]) == 2:
                return "(%s %s %s)" % (self.show(t[2][0]), t[1], self.show(t[2][1]))
        return super().show(t)

    def ev(self, t, env):
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] == 'phi':
            c = self.ev(t[2][0], env)
            return None if c is None else self.ev(t[2][1 if c else 2], env)
        if isinstance(t, tuple) and t and t[0] == 'lv' and t[1][0] == 'var' and "atom" in env:
            v = env["atom"](t)
            if v is not None:
                return v
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('==', '!=') and len(t[2]) == 2 and "atom" in env:
            f = [x for x in t[2] if x[0] == 'call' and short(x[1]) == "find"]
            e = [x for x in t[2] if x[0] == 'call' and short(x[1]) == "end"]
            if f and e and f[0][2] == e[0][2]:
                v = env["atom"](('call', 'count') + f[0][2:])
                return v if v is None else (bool(v) == (t[1] == '!='))
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in ('/', '%') and len(t[2]) == 2:
            a, b = (self.ev(x, env) for x in t[2])
            return None if None in (a, b) or not b else a // b if t[1] == '/' else a % b
        return super().ev(t, env)

    def acts(self, items, env, loops=(), guards=()):
        """(text, loops, item) in order; an effect under an unknown condition is marked with it"""
        for i in items:
            if i[0] == 'set':
                l, v = bare(i[1]), i[2]
                p = self.path(i[1], env)
                if not any(p.split("[")[0].endswith(m) or m in p for m in MARKS) and not (l[0] == 'at' and l[1][0] == 'var'):
                    continue
                plain, v = v, self.res(v, env)
                parts = v[2] if v[0] == 'op' and v[1] == '+' and len(v[2]) == 2 else ()
                own = [x for x in parts if self.path(x, env) == p]
                if own:
                    rest = parts[1] if parts[0] is own[0] else parts[0]
                    yield ("%s += %s" % (p, self.path(rest, env)), loops, i, guards)
                else:
                    yield ("%s = %s" % (p, self.path(plain, env)), loops, i, guards)
            elif i[0] == 'sink' and short(i[1]) in CALLS:
                a = [x for x in i[3] if x != ()]
                yield ("%s(%s)" % (short(i[1]), ", ".join(self.path(x, env) for x in a)), loops, i, guards)
            elif i[0] == 'alt':
                c = self.ev(i[1], env)
                if c is None:
                    yield from self.acts(i[2], env, loops, guards + ((i, 1),))
                    yield from self.acts(i[3], env, loops, guards + ((i, 0),))
                    if len(i) > 7 and {i[6], i[7]} & {'cont', 'ret', 'break'}:
                        guards = guards + ((i, 1),)
                    continue
                yield from self.acts(i[2 if c else 3], env, loops, guards)
                if len(i) > 7 and i[6 if c else 7] in ('cont', 'ret', 'break'):
                    if i[6 if c else 7] != 'cont' and loops:
                        yield ("the rest is left out", loops, i, guards)
                    return
            elif i[0] == 'loop':
                go = self.w.guards.get(i[1])
                if go is not None and self.ev(go, env) == 0:
                    yield ("the rest is left out", loops + (("?", i),), i, guards)
                    continue
                el = [x for x in subs(tuple(map(p25.tuple_of, i[3]))) if x[0] == 'elem' and len(x) > 2 and x[2] == i[1]]
                if i[2] is not None and i[2][0] == 'size':
                    c = self.path(i[2][1], env)
                elif el:
                    c = self.path(el[0][1], env)
                else:
                    c = "?"
                yield from self.acts(i[3], env, loops + ((c, i),), guards)


def spot(i):
    """the place of an effect in the source"""
    return next((x for x in i[3:] if isinstance(x, Node)), None)


def found(prog, name):
    fs = [F for F in prog.functions if F.q.endswith(name) and F.body]
    return fs[0] if len(fs) == 1 else None


def compare(r, A, got, want, when):
    """every due effect once, in its loop; no other effect on the tables"""
    F = A.F
    rest = []
    for t, loops, i, g in got:
        rest.append((t, tuple(c for c, l in loops), i, g))
    for text, loops in want:
        r.count(obligations=1)
        m = [x for x in rest if x[0] == text and x[1] == loops]
        if len(m) == 1 and not m[0][3]:
            rest.remove(m[0])
            continue
        if len(m) > 1:
            r.add("twice|%s|%s" % (F.name, text), F.where(spot(m[1][2])), "%s: %s is done %d times%s" % (F.q, text, len(m), when))
            rest = [x for x in rest if x not in m]
            continue
        if m and m[0][3]:
            i = m[0][3][-1][0]
            r.add("when|%s|%s" % (F.name, text), F.where(spot(i)), "%s: %s depends on %s%s" % (F.q, text, show(i[1]), when))
            rest.remove(m[0])
            continue
        near = [x for x in rest if x[0].split("(")[0].split(" ")[0].split("[")[0] == text.split("(")[0].split(" ")[0].split("[")[0]]
        at = F.where(spot(near[0][2])) if near else F.where()
        r.add("missing|%s|%s" % (F.name, text), at, "%s: %s is not done for %s%s%s" % (
            F.q, text, "each " + loops[-1] if loops else "the function", when, "; instead " + near[0][0] if near else ""))
        for x in near[:1]:
            rest.remove(x)
    for text, loops, i, g in rest:
        if text.startswith("GetProfileMaps(") and "= " not in text:
            continue
        r.add("extra|%s|%s" % (F.name, text), F.where(spot(i)), "%s: %s%s" % (F.q, text, when))


def envs(atom):
    return dict(ENV, atom=atom, pos={})


def aggregate(r, prog, F):
    A = Acts(r, prog, F, {}, "")
    S = "this.sample_reader_."

    def sv(x):
        return "get_static_vaddr(%s)" % x

    def M(x):
        return "GetProfileMaps(%s)" % x
    for some in (0, 1):
        for ts in (0, 9):
            def atom(t):
                if t[0] == 'call' and short(t[1]) == "GetProfileMaps":
                    return some
                if t[0] == 'm' and t[2] == "timestamp":
                    return ts
                if t[0] == 'lv' and A.path(t, ENV).endswith(".timestamp"):
                    return ts
                return None
            want = []
            k, v = S + "address_count_map_[]" + ".first", S + "address_count_map_[]" + ".second"
            if some:
                want.append(("%s.address_count_map[%s] += %s" % (M(sv(k)), sv(k), v), (S + "address_count_map_",)))
                if not ts:
                    k = S + "address_timestamp_map_[].first"
                    want.append(("%s.timestamp = %s" % (M(sv(k)), S + "address_timestamp_map_[].second"), (S + "address_timestamp_map_",)))
                for m in ("range", "branch"):
                    c = S + m + "_count_map_"
                    a, b = sv(c + "[].first.first"), sv(c + "[].first.second")
                    want.append(("%s.%s_count_map[(%s,%s)] += %s[].second" % (M(a), m, a, b, c), (c,)))
            want.append(("GetProfileMaps(this.symbol_map_.name_addr_map_[].second)", ("this.symbol_map_.name_addr_map_",)))
            compare(r, A, list(A.acts(A.items, envs(atom))), want, "" if some else ", although no function is known for the address")


def process(r, prog, F):
    A = Acts(r, prog, F, {}, "")
    ps = [p["n"] for p in F.params]
    r.require(len(ps) == 2, "parameters of the processing of a function")
    fn, mp = ps
    for lbr in (0, 1):
        for info in (0, 1):
            for stack in (0, 1):
                for callee in (0, 1):
                    for known in (0, 1):
                        if (not info or not stack) and not (callee and known) or lbr and not (info and stack and callee and known):
                            continue
                        processed(r, A, F, fn, mp, lbr, info, stack, callee, known)


def processed(r, A, F, fn, mp, lbr, info, stack, callee, known):
    def atom(t):
        if t[0] == 'flag':
            return lbr if "lbr" in str(t[1]) else None
        if t[0] == 'call':
            n = short(t[1])
            if n == "lookup":
                return info
            if n == "GetSymbolNameByStartAddr":
                return callee
            if n in ("count", "contains"):
                return known
            if n == "empty" and t[2] is not None:
                p = A.path(t[2], ENV)
                return 1 - stack if p.endswith("source_stack") else 0
        if t[0] == 'size' and A.path(t[1], ENV).endswith("source_stack"):
            return stack
        return None
    env = envs(atom)
    got = list(A.acts(A.items, env))
    local = [(t, l, i, g) for t, l, i, g in got if " += " in t and l and l[0][0] == mp + ".range_count_map"]
    c = mp + ".address_count_map"
    if lbr:
        r.count(obligations=3)
        if len(local) != 1 or local[0][3] or len(local[0][1]) != 2:
            r.add("ranges", F.where(), "%s: the instructions of a run do not all get the count of the run, once" % F.q)
            return
        t, l, i, g = local[0]
        c = t.split("[")[0]
        seen = {l[0][0] for t, l, i, g in got if l and len(l) == 1}
        c = next((A.show(k) for k, v in A.w.store.items() if k[0] == 'var' and A.path(v, env) == c and A.show(k) in seen), c)
        if not t.endswith(" += %s.range_count_map[].second" % mp):
            r.add("ranges|value", F.where(spot(i)), "%s: an instruction of a run is given %s" % (F.q, t.split(" += ")[1] if " += " in t else t))
        span(r, A, F, l[1][1], i, mp, env)
    got = [x for x in got if x not in local]
    C = c + "[]"
    want = [("AddSymbolTimestamp(%s, %s.timestamp)" % (fn, mp), ())]
    look = "lookup(%s.first)" % C
    perf = perfdata(A)
    if info and stack:
        want.append(("AddSourceCount(%s, %s.source_stack, %s.second, 0, %s, %s)" % (fn, look, C, dup(got), perf), (c,)))
    b = mp + ".branch_count_map"
    if info and callee and known:
        who = "GetSymbolNameByStartAddr(%s[].first.second)" % b
        e = [t for t, l, i, g in got if t.startswith("AddSymbolEntryCount(")]
        want.append((entry(e, "AddSymbolEntryCount(%s, %s[].second" % (who, b)), (b,)))
        want.append(("AddIndirectCallTarget(%s, lookup(%s[].first.first).source_stack, %s, %s[].second, %s)" % (fn, b, who, b, perf), (b,)))
    want.append(("this.global_addr_count_map_[%s.first] = %s.second" % (C, C), (c,)))
    if not any("this.global" in t for t, l, i, g in got):
        want[-1] = (want[-1][0].replace("this.", ""), want[-1][1])
    compare(r, A, got, want, "")


def entry(e, start):
    """the second count of an entry is its default, nothing"""
    for x in e:
        if x in (start + ")", start + ", 0)"):
            return x
    return start + ")"


def dup(got):
    for t, l, i, g in got:
        if t.startswith("AddSourceCount(") and i[0] == 'sink' and len(i[3]) > 4:
            d = t.rsplit(", ", 2)[-2]
            s = t.split(", ")[1]
            if d.replace("at(0)", "[0]").replace(".front()", "[0]").startswith(s + "[0].") and "duplication" in d.lower():
                return d
    return "<duplication factor of the place>"


def perfdata(A):
    """the number that stands for samples of perf"""
    for e in A.prog.enums.values():
        for k in e.get("consts", ()):
            if k["n"] == "PERFDATA":
                return k["v"]
    return "1"


def span(r, A, F, loop, store, mp, env):
    """from the first to the last instruction of the run"""
    uid = loop[1]
    key = [q for q in (bare(store[1])[2],)]
    q = key[0]
    start = loop[4].get(q) if isinstance(loop[4], dict) else None
    if start is None:
        start = next((v for k, v in loop[4].items() if bare(k) == q), None) if isinstance(loop[4], dict) else None
    first, last = mp + ".range_count_map[].first.first", mp + ".range_count_map[].first.second"
    if start is not None and A.path(start, ENV) != first:
        r.add("ranges|first", F.where(spot(loop)), "%s: a run is counted from %s" % (F.q, show(start)))
    up = next((v for k, v in A.w.updates.get(uid, {}).items() if bare(k) == q), None)
    if up is not None and not (up[0] == 'op' and up[1] == '+' and up[2][1] == K(1)):
        r.add("ranges|step", F.where(spot(loop)), "%s: not every address of a run is looked at" % F.q)
    g = A.w.guards.get(uid)
    if g is None:
        return

    def at(n):
        def atom(t):
            if t[0] == 'lv' and bare(t) == q or t == q:
                return n
            p = A.path(t, ENV) if t[0] in ('m', 'elem', 'lv') else None
            if p == first:
                return 10
            if p == last:
                return 12
            return env["atom"](t)
        return A.ev(g, envs(atom))
    vals = [at(n) for n in (10, 11, 12, 13)]
    if None not in vals and [bool(v) for v in vals] != [True, True, True, False]:
        r.add("ranges|last", F.where(spot(loop)), "%s: a run is not counted up to and including its last address" % F.q)


def total(r, prog, F):
    A = Acts(r, prog, F, {}, "")
    rets = [i for i in A.items if i[0] == 'ret']
    for empty in (0, 1):
        def atom(t):
            if t[0] == 'call' and short(t[1]) == "empty":
                return empty
            if t[0] == 'size':
                return 0 if empty else 2
            return None
        env = envs(atom)
        ts = []

        def go(items):
            for i in items:
                if i[0] == 'ret':
                    ts.append(i[1])
                    return True
                if i[0] == 'alt':
                    c = A.ev(i[1], env)
                    if c is not None and go(i[2 if c else 3]):
                        return True
            return False
        go(A.items)
        if not ts or ts[0] is None:
            continue
        t = ts[0]
        while t[0] == 'op' and t[1] == 'phi':
            c = A.ev(t[2][0], env)
            if c is None:
                break
            t = t[2][1 if c else 2]
        if t[0] != 'sum':
            continue
        r.count(obligations=1)
        over = A.path(t[1][1], ENV) if t[1][0] == 'size' else "?"
        m = "address_count_map" if empty else "range_count_map"

        def num(x):
            p = A.path(x, ENV).replace("[#]", "[]") if x[0] in ('m', 'elem') else ""
            return 14 if p.endswith(".first.second") else 10 if p.endswith(".first.first") else 3 if p.endswith(".second") else None
        d = A.ev(t[2], envs(num))
        if not over.endswith(m) or d is not None and d != (3 if empty else 15):
            r.add("total|%s" % m, F.where(), "%s: %s" % (F.q, "the samples of a function without runs are its address counts" if empty else
                                                          "the samples of a function are those of every instruction of its runs"))


def compute(r, prog, F):
    A = Acts(r, prog, F, {}, "")
    sp = "this.symbol_profile_maps_"
    for llc in (0, 1):
        for hot in (0, 1):
            def atom(t):
                if t[0] == 'flag':
                    return llc
                if t[0] == 'call' and short(t[1]) == "EnsureEntryInFuncForSymbol":
                    return hot
                if t[0] in ('call', 'at', 'm', 'elem', 'lv') and ("GetOriginalName" in str(t)):
                    return 5 if hot else 3
                if t[0] == 'm' and t[2] == "count_threshold_":
                    return 4
                if t[0] == 'call' and short(t[1]) == "ShouldEmit":
                    return hot
                return None
            got = list(A.acts(A.items, envs(atom)))
            seq = [(t, tuple(c for c, l in ls)) for t, ls, i, g in got]
            n = F.params[0]["n"] if F.params else ""
            want = [("CalculateThresholdFromTotalCount(this.sample_reader_.total_count_)", ()), ("AggregatePerFunctionProfile(%s)" % n, ())]
            if llc:
                inner = sp + "[].second.address_count_map"
                loc = next((t.split("[")[0] for t, l in seq if l == (sp, inner)), "counts")
                if hot:
                    want.append(("%s[%s[].first] += %s[].second" % (loc, inner, inner), (sp, inner)))
                calls = [t for t, l in seq if l == (sp, loc) and t.startswith("AddIndirectCallTarget(%s[].first, " % sp) and "'__llc_misses__', %s[].second" % loc in t]
                want.append((calls[0] if calls else "AddIndirectCallTarget(%s[].first, <stack>, '__llc_misses__', %s[].second)" % (sp, loc), (sp, loc)))
                want.append(("ElideSuffixesAndMerge()", ()))
            else:
                loc = next((t.split("[")[0] for t, l in seq if "GetAggregatedCount" in t), "symbol_counts")
                want.append(("%s[GetOriginalName(%s[].first)] += %s[].second.GetAggregatedCount()" % (loc, sp, sp), (sp,)))
                if hot:
                    adds = [t for t, l in seq if t.startswith("AddSymbol(")]
                    want.append(("AddSymbol(%s[].first)" % sp, (sp,)))
                    want.append(("ProcessPerFunctionProfile(%s[].first, %s[].second)" % (sp, sp), (sp,)))
                want += [("ElideSuffixesAndMerge()", ()), ("ComputeWorkingSets()", ())]
            compare(r, A, got, want, " (cache misses)" if llc else "" if hot else ", although the function is not hot enough")
            order(r, A, F, got)


RANK = ["AggregatePerFunctionProfile", "GetAggregatedCount", "AddSymbol", "ProcessPerFunctionProfile", "ElideSuffixesAndMerge", "ComputeWorkingSets"]


def order(r, A, F, got):
    """each step needs the whole of the step before"""
    last, top = None, -1
    for t, ls, i, g in got:
        if "CalculateThreshold" in t and top >= RANK.index("AddSymbol"):
            r.add("order|threshold", F.where(spot(i)), "%s: the threshold is computed after it is used" % F.q)
        k = [n for n, x in enumerate(RANK) if x in t]
        if not k:
            continue
        r.count(obligations=1)
        key = (k[-1], ls[0][1][1] if ls else None)
        if k[-1] < top or last is not None and last[0] != key[0] and last[1] is not None and last[1] == key[1]:
            r.add("order|%s" % RANK[k[-1]], F.where(spot(i)), "%s: %s before %s is complete" % (F.q, RANK[max(top, k[-1])], RANK[min(top, k[-1])]))
        top, last = max(top, k[-1]), key


def tables(r, prog, F):
    """one table for each function, with the name and the bounds of the function"""
    A = Acts(r, prog, F, {}, "")
    every = list(subs(tuple(map(p25.tuple_of, A.items))))
    asked = [x for x in every if x[0] == 'call' and short(x[1]) == "GetSymbolInfoByAddr" and len(x[3]) == 4]
    if not asked or not F.params:
        return
    addr, name, first, last = (A.show(x).lstrip("&*") for x in asked[0][3])
    r.count(obligations=3)
    for x in every:
        if x[0] == 'new' and short(x[1]) == "ProfileMaps" and len(x[2]) == 2:
            b = [A.show(y).lstrip("&*") for y in x[2]]
            if b != [first, last]:
                r.add("bounds|%s" % F.name, F.where(), "%s: the samples of a function are kept with the bounds %s, %s" % (F.q, b[0], b[1]))
        k = None
        if x[0] == 'call' and len(x) > 3 and x[2] is not None and A.show(x[2]).endswith("symbol_profile_maps_") and x[3]:
            k = x[3][0]
            if k[0] in ('new', 'call', 'op') and k[-1] and short(k[1]) in PAIRS | {'{}', 'value_type'}:
                k = k[-1][0]
        elif x[0] == 'at' and A.show(x[1]).endswith("symbol_profile_maps_"):
            k = x[2]
        if k is not None and any(y[0] == 'call' and (short(y[1]) not in ("str", "data", "c_str") and not short(y[1]).startswith("operator ")) for y in subs(k)) or \
                k is not None and k[0] != 'call' and A.show(k).lstrip("&*") in (addr, first, last):
            r.add("name|%s" % F.name, F.where(), "%s: the samples of a function are kept as those of %s" % (F.q, A.show(k)))
    for new in (0, 1):
        def atom(t):
            if t[0] == 'call' and short(t[1]) == "GetSymbolInfoByAddr":
                return 1
            if t[0] == 'call' and short(t[1]) in ("count", "contains"):
                return 1 - new
            if t[0] == 'm' and t[2] == "second" and t[1][0] == 'call' and short(t[1][1]) in ("insert", "emplace", "try_emplace"):
                return new
            return None
        t = answer(A, A.items, envs(atom))
        if t is not None and (t == K(0) or t[0] == 'k' and str(t[1]) == "0"):
            r.add("none|%s" % F.name, F.where(), "%s: no table for a known function" % F.q)


def answer(A, items, env):
    """what is returned"""
    for i in items:
        if i[0] == 'ret':
            t = i[1]
            while t is not None and t[0] == 'op' and t[1] == 'phi':
                c = A.ev(t[2][0], env)
                if c is None:
                    return None
                t = t[2][1 if c else 2]
            return t
        if i[0] == 'alt':
            c = A.ev(i[1], env)
            if c is None:
                if {i[6], i[7]} & {'ret'} if len(i) > 7 else 0:
                    return None
                continue
            t = answer(A, i[2 if c else 3], env)
            if t is not None or len(i) > 7 and i[6 if c else 7] == 'ret':
                return t
    return None


DATA = ("data_source", "count", "num_inst", "duplication", "head_count", "total_count")


def places(r, prog, name, want):
    """what the symbol map keeps of a count it is handed, worked out in numbers"""
    F = found(prog, name)
    r.require(F is not None, name)
    r.count(functions_evaluated=1)
    A = Acts(r, prog, F, {}, "")
    ps = {p["n"] for p in F.params}
    for case in want(ps):
        v, due, hand = case
        r.count(obligations=1)

        def atom(t):
            if t[0] == 'param':
                return v.get(t[1])
            if t[0] == 'flag':
                return v.get("multiply") if "multiply" in str(t[1]) else 1
            if t[0] == 'call':
                n = short(t[1])
                if n == "TraverseInlineStack":
                    return v.get("symbol")
                if n == "HasInvalidInfo":
                    return v.get("invalid")
                if n == "empty":
                    return 0
                if n in ("max", "min") and len(t[3]) == 2:
                    a = [A.ev(x, env) for x in t[3]]
                    return None if None in a else (max if n == "max" else min)(a)
            if t[0] == 'm' and t[2] == "second" and t[1][0] == 'call' and short(t[1][1]) in ("insert", "emplace", "try_emplace"):
                return v.get("new")
            if t[0] in ('m', 'at', 'lv', 'after') and now(A, t, env):
                return v.get("now")
            return None
        env = envs(atom)
        end = {}
        cut = False
        n = {}
        for t, loops, i, g in A.acts(A.items, env):
            if t == "the rest is left out":
                cut = True
                continue
            if i[0] == 'sink':
                if short(i[1]) in hand:
                    k, x = hand[short(i[1])]
                    got = A.ev(i[3][k], env) if len(i[3]) > k else None
                    if got is not None and got != x:
                        r.add("hand|%s" % F.name, F.where(spot(i)), "%s: %s is told %s samples of %s" % (F.q, short(i[1]), got, x))
                continue
            f = now(A, i[1], env)
            if not f:
                continue
            k = (f, len(loops))
            if g:
                continue
            end[k] = A.ev(i[2], env)
            n[k] = n.get(k, 0) + 1
            base = A.path(i[1], env)
            if ".pos_counts[" in base and not base.split(".pos_counts[")[1].startswith(("src[0].Offset(", "src.front().Offset(", "src.at(0).Offset(", "src.begin().Offset(")):
                r.add("place|%s" % F.name, F.where(spot(i)), "%s: a count is kept for %s" % (F.q, base.split(".pos_counts[")[1][:60]))
        if v.get("cut") and not cut:
            r.add("cut|%s" % F.name, F.where(), "%s: a caller of an unknown place is left out, but not those inside it" % F.q)
        for k in set(end) | set(due):
            had = end.get(k, v["now"])
            ok = due.get(k, (v["now"],))
            if had is not None and had not in ok:
                r.add("kept|%s|%s" % (F.name, k[0]), F.where(), "%s: with %s, a %s of %s becomes %s instead of %s" % (
                    F.q, ", ".join("%s %s" % x for x in sorted(v.items()) if x[0] in DATA + ("invalid", "multiply")), k[0].replace("_", " "), v["now"], had, ok[0]))
            if n.get(k, 0) > 1 and f_adds(k[0]):
                r.add("twice|%s|%s" % (F.name, k[0]), F.where(), "%s: the %s is changed %d times" % (F.q, k[0], n[k]))


def f_adds(f):
    return f in ("num_inst", "total_count", "head_count")


def now(A, t, env):
    """which of the counts kept a place is"""
    b = bare(t)
    if b[0] == 'after':
        b = bare(b[1])
    if b[0] == 'm' and b[2] in ("num_inst", "total_count", "head_count"):
        return b[2]
    if b[0] == 'm' and b[2] == "count" and "pos_counts" in str(b[1]):
        return "count"
    if b[0] == 'at' and b[1][0] == 'm' and b[1][2] == "target_map":
        return "target count"
    return None


def source_counts(ps):
    for ds in (1, 2, 3):
        for inv in (0, 1):
            for sym in (0, 1):
                for mult in (0, 1):
                    for d in (1, 2):
                        for c in (0, 5):
                            for had in (3, 100):
                                t = c * d if mult else c
                                due = {}
                                if sym and not (inv and ds < 3):
                                    due = {("count", 0): (max(t, had) if ds < 3 else t + had,), ("num_inst", 0): (had + 7,)}
                                yield (dict(data_source=ds, count=c, num_inst=7, duplication=d, multiply=mult, invalid=inv, symbol=sym, now=had), due,
                                       {"TraverseInlineStack": (2, t)})


def target_counts(ps):
    for ds in (1, 2, 3):
        for inv in (0, 1):
            for sym in (0, 1):
                for had in (3, 100):
                    due = {}
                    if sym and not (inv and ds < 3):
                        due = {("target count", 0): (5, max(5, had)) if ds < 3 else (5 + had,)}
                    yield dict(data_source=ds, count=5, invalid=inv, symbol=sym, now=had), due, {"TraverseInlineStack": (2, 0)}


def entry_counts(ps):
    yield dict(head_count=5, total_count=2, now=3), {("head_count", 0): (8,), ("total_count", 0): (5,)}, {}


def stack_counts(ps):
    for ds in (1, 2, 3):
        for inv in (0, 1):
            due = {("total_count", 0): (8,)}
            if not inv or ds == 3:
                due[("total_count", 1)] = (8,)
            for new in (0, 1):
                yield dict(data_source=ds, count=5, invalid=inv, now=3, new=new, cut=inv and ds < 3), due, {}


def callers(r, prog):
    """every caller in a stack of inlined calls has its place and the name of the function called there"""
    F = found(prog, "SymbolMap::TraverseInlineStack")
    A = Acts(r, prog, F, {}, "")
    src = next((p["n"] for p in F.params if "SourceStack" in (p.get("t") or "") or "vector" in (p.get("t") or "")), "src")

    def atom(t):
        if t[0] == 'size' and A.show(bare(t[1])) in (src, "param"):
            return 4
        if t[0] == 'idx':
            return 2
        return None
    env = envs(atom)

    def at(t, field):
        for x in subs(t):
            if x[0] == 'at' and bare(x[1]) == ('param', src):
                yield A.ev(x[2], env)

    def go(items, loop):
        for i in items:
            if i[0] == 'alt':
                go(i[2], loop)
                go(i[3], loop)
            elif i[0] == 'loop':
                n = A.ev(i[2], env) if i[2] is not None else None
                r.count(obligations=1)
                if n is not None and n != 3:
                    r.add("callers|count", F.where(spot(i)), "%s: of 4 places in a stack, %s are taken as those of a call instead of 3" % (F.q, n))
                go(i[3], i)
    go(A.items, None)
    for x in subs(tuple(map(p25.tuple_of, A.items))):
        if x[0] == 'op' and x[1] == '{}' and len(x[2]) == 2 or x[0] == 'new' and short(x[1]) == "Callsite" and len(x[2]) == 2:
            o, f = (set(at(y, None)) for y in x[2])
            r.count(obligations=1)
            if len(o) == 1 and len(f) == 1 and None not in o | f and o.pop() - 1 != f.pop():
                r.add("callers|name", F.where(), "%s: the place of a call is not paired with the function called there" % F.q)
        elif x[0] == 'new' and short(x[1]) == "Symbol" and x[2]:
            f = set(at(x[2], None)) - {None}
            if f and f != {1}:
                r.add("callers|callee", F.where(), "%s: an inlined function is described with the data of another" % F.q)


def instructions(r, prog):
    """every instruction of a function makes its place known, without samples"""
    F = found(prog, "InstructionMap::BuildPerFunctionInstructionMap")
    r.require(F is not None, "BuildPerFunctionInstructionMap")
    r.count(functions_evaluated=1)
    A = Acts(r, prog, F, {}, "")
    for end in (11, 30):
        def atom(t):
            if t[0] == 'param':
                return {"start_addr": 10, "end_addr": end}.get(t[1])
            if t[0] == 'call' and short(t[1]) == "empty":
                return 1 if A.show(t[2]).endswith("inst_map_") else 0
            if t[0] == 'size' and A.show(bare(t[1])).endswith("source_stack"):
                return 2
            return None
        env = envs(atom)
        got = [x for x in A.acts(A.items, env) if x[2][0] == 'sink' and short(x[2][1]) == "AddSourceCount"]
        r.count(obligations=2)
        if len(got) != 1 or len(got[0][1]) != 1 or got[0][3]:
            r.add("instructions", F.where(spot(got[0][2]) if got else None), "%s: the place of each instruction is not made known once" % F.q)
            continue
        t, loops, i, g = got[0]
        a = [x for x in i[3] if x != ()]
        vals = [A.ev(x, env) for x in a[2:]]
        due = [0, 1, 1, int(perfdata(A))]
        if len(vals) == 4 and any(v != d and (v is not None or any(y[0] == 'call' for y in subs(x))) for v, d, x in zip(vals, due, a[2:])):
            r.add("instructions|counts", F.where(spot(i)), "%s: the place of an instruction is made known as %s samples, %s instructions, times %s" % (F.q, *vals[:3]))
        lp = loops[0][1]
        n = A.ev(lp[2], env) if lp[2] is not None else None
        if n is not None and n != end - 10:
            r.add("instructions|count", F.where(spot(lp)), "%s: of %d addresses of a function, %s are looked at" % (F.q, end - 10, n))
        up = A.w.updates.get(lp[1], {})
        go = A.w.guards.get(lp[1])
        for k, v in up.items():
            if n is None and go is not None and v[0] == 'op' and v[1] == '+' and v[2][1] == K(1):
                ends = [A.ev(go, envs(lambda t: x if t[0] == 'lv' and bare(t) == bare(k) else atom(t))) for x in (end - 1, end)]
                if None not in ends and [bool(x) for x in ends] != [True, False] and A.path(lp[4].get(k, K(0)), ENV).endswith("start_addr"):
                    r.add("instructions|last", F.where(spot(lp)), "%s: the last address of a function is not the last one looked at" % F.q)
            if n is None and v[0] == 'op' and v[1] == '+' and v[2][1][0] == 'k' and str(v[2][1][1]) not in ("1",):
                r.add("instructions|step", F.where(spot(lp)), "%s: not every address of a function is looked at" % F.q)


def check(prog, tier):
    r = Result("every sample is counted for the function, the instruction and the call target it was recorded for")
    r.explanation = ("The functions that distribute samples are evaluated symbolically; under every combination of what lookups may answer, the updates made to the tables and the "
                     "counts handed on (function, place, count, target) must be exactly those due, each in the loop over the samples it belongs to, in the order they depend on.")
    steps = [("Profile::GetProfileMaps", tables), ("Profile::AggregatePerFunctionProfile", aggregate), ("Profile::ProcessPerFunctionProfile", process),
             ("ProfileMaps::GetAggregatedCount", total), ("Profile::ComputeProfile", compute)]
    for name, f in steps:
        F = found(prog, name)
        r.require(F is not None, name)
        r.count(functions_evaluated=1)
        f(r, prog, F)
    for name, want in (("SymbolMap::AddSourceCount", source_counts), ("SymbolMap::AddIndirectCallTarget", target_counts),
                       ("SymbolMap::AddSymbolEntryCount", entry_counts), ("SymbolMap::TraverseInlineStack", stack_counts)):
        places(r, prog, name, want)
    callers(r, prog)
    instructions(r, prog)
    return r
