"""Keys are compared, ordered and hashed consistently and by all of their parts."""
from core import Result
from ir import *
from order import Table, Unknown, hash_components

N = "devtools_crosstool_autofdo::"
# parts that are not what identifies a record
APART = {
    N + "BbHandleBranchPath": {"sample_time": "when a path was sampled is not part of the path"},
    N + "MMapEntry": {"pid": "entries are kept per process"},
    N + "LineIdentifier": {"context": "the call context is kept apart from the place", "subprog_num": "the function is kept apart from the place"},
    "address range": {"second": "the ranges ordered this way do not overlap"},
}


def record(prog, t):
    t = (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()
    return t, prog.records.get(t)


def check(prog, tier):
    r = Result("abstract interpretation over order types: every comparison function is evaluated for all relations its operands' components "
               "can have; orders must be irreflexive, asymmetric and transitive, equalities reflexive, symmetric and transitive, both must "
               "depend on every identifying part, and a hash may depend on compared parts only")
    eq, less, hashes, seen = {}, {}, {}, set()
    for F in prog.functions:
        if F.body is None or F.file.startswith("/") or "third_party" in F.file or (F.file, F.line) in seen:
            continue
        ps = F.params
        if F.name == "AbslHashValue" and len(ps) == 2 or F.name == "operator()" and not F.key.startswith("lambda@") and len(ps) == 1 and \
                (F.d.get("ret") or "") in ("unsigned long", "size_t", "std::size_t"):
            seen.add((F.file, F.line))
            t, R = record(prog, ps[-1].get("t"))
            if R is not None:
                hashes.setdefault(t, []).append((F, hash_components(prog, F, False)))
            continue
        if (F.d.get("ret") or "") != "bool":
            continue
        lam = F.key.startswith("lambda@")
        if F.name in ("operator==", "operator<", "operator>", "operator<=", "operator>=", "operator!=") and F.cls and len(ps) == 1:
            method = True
            t, R = record(prog, ps[0].get("t"))
            if t != F.cls:
                continue
        elif (F.name in ("operator==", "operator<", "operator>", "operator<=", "operator>=", "operator!=") or F.name == "operator()") and len(ps) == 2 and \
                ps[0].get("t") == ps[1].get("t") and all(p.get("d") for p in ps):
            method = False
            t, R = record(prog, ps[0].get("t"))
        else:
            continue
        seen.add((F.file, F.line))
        what = "the comparison in %s" % (F.q.split("::(anonymous")[0] if not lam else F.q).replace(N, "") if lam else F.q.replace(N, "")
        key = F.q.replace(N, "") if not lam else "%s %s" % (t.replace(N, ""), (F.parent or "").split("(")[0].replace(N, ""))
        try:
            T = Table(prog, F, method)
        except (Unknown, RecursionError) as e:
            r.count(undecided=1)
            r.sample("undecided: %s (%s)" % (F.where(), e))
            continue
        r.count(comparators=1, pairs=len(T.res))
        f = lambda x, y: T.res[x, y]
        S = T.states()
        for w, msg in T.notes:
            if "as many elements" in msg and any(c.endswith(".size()") for c in T.comps):
                continue
            r.add("%s|%s" % (key, msg), w, "%s %s" % (what, msg), "an inconsistent comparison merges or reorders unrelated entries")
        if not T.comps:
            r.add("%s|constant" % key, F.where(), "%s does not depend on its operands" % what, "")
            continue
        kind = F.name
        if kind == "operator()":
            kind = "operator==" if all(f(x, x) for x in S) else "operator<"
        if kind in ("operator<=", "operator>="):
            g, kind = f, "operator<"
            f = lambda x, y: not g(y, x)
        if kind == "operator!=":
            g, kind = f, "operator=="
            f = lambda x, y: not g(x, y)
        if kind == "operator==":
            bad = next(((x, x) for x in S if not f(x, x)), None)
            if bad:
                r.add("%s|reflexive" % key, F.where(), "%s: a value is not equal to itself" % what, T.showpair(*bad))
            bad = next(((x, y) for x in S for y in S if f(x, y) != f(y, x)), None)
            if bad:
                r.add("%s|symmetric" % key, F.where(), "%s holds in one direction only when %s" % (what, T.showpair(*bad)), "")
            elif T.transitive(f):
                r.add("%s|transitive" % key, F.where(), "%s is not transitive" % what, "")
            dep = T.comps
            differs = [c for i, c in enumerate(T.comps) if any(
                x[i] != y[i] and f(x, y) and all(u == v for j, (u, v) in enumerate(zip(x, y)) if j != i) for x in S for y in S)]
            for c in differs:
                if F.name == "operator()" and lam:
                    continue
                r.add("%s|ignores %s" % (key, c), F.where(), "%s holds for values that differ in %s" % (what, c.lstrip(".")),
                      "different entries are taken for the same one")
            two = None if differs or lam else next(((x, y) for x in S for y in S if x != y and f(x, y)), None)
            if two:
                r.add("%s|joint" % key, F.where(), "%s holds for different values: %s" % (what, T.showpair(*two)), "different entries are taken for the same one")
        else:
            bad = next((x for x in S if f(x, x)), None)
            if bad is not None:
                r.add("%s|irreflexive" % key, F.where(), "%s: a value is ordered before itself" % what, "")
            bad = next(((x, y) for x in S for y in S if x != y and f(x, y) and f(y, x)), None)
            if bad:
                r.add("%s|asymmetric" % key, F.where(), "%s orders two values both ways when %s" % (what, T.showpair(*bad)), "")
            elif T.transitive(f):
                x, y, z = T.transitive(f)
                r.add("%s|transitive" % key, F.where(), "%s is not transitive: first to second %s; second to third %s"
                      % (what, T.showpair(x, y), T.showpair(y, z)), "")
            else:
                inc = lambda x, y: not f(x, y) and not f(y, x)
                b = T.transitive(inc)
                if b:
                    r.add("%s|equivalence" % key, F.where(), "%s: not being ordered is not transitive" % what, T.showpair(b[0], b[1]))
            if not lam:
                lost = [c for i, c in enumerate(T.comps) if any(
                    x[i] != y[i] and not f(x, y) and not f(y, x) and all(u == v for j, (u, v) in enumerate(zip(x, y)) if j != i)
                    for x in S for y in S)]
                for c in lost:
                    r.add("%s|ignores %s" % (key, c), F.where(), "%s does not tell values apart that differ in %s only" % (what, c.lstrip(".")), "")
                two = None if lost else next(((x, y) for x in S for y in S if x != y and not f(x, y) and not f(y, x)), None)
                if two:
                    r.add("%s|joint" % key, F.where(), "%s does not tell different values apart: %s" % (what, T.showpair(*two)), "")
        if lam:
            continue
        # all identifying parts take part
        heads = {c.split(".")[1].split("(")[0].split("[")[0] for c in T.comps if c.startswith(".")}
        pairlike = t.startswith("std::pair<")
        fields = [x["n"] for x in R.get("fields", ())] if R and R.get("q", t).startswith(N) else ["first", "second"] if pairlike else []
        apart = APART.get(t) or (APART["address range"] if pairlike and "unsigned long long" in t else {})
        direct = F.cls == t or any(n.k == "MemberExpr" and n.dk == "Field" and n.ch and strip(n.ch[0]).k == "DeclRefExpr"
                                   and strip(n.ch[0]).d in {p["d"] for p in ps} for n in F.walk())
        if direct:
            for x in fields:
                if x not in heads and x not in apart:
                    r.add("%s|part %s" % (key, x), F.where(), "%s ignores %s" % (what, x), "entries that differ in %s only are taken for the same" % x)
            r.count(parts=len(fields))
        (eq if kind == "operator==" else less).setdefault(t, []).append((F, what, heads, set(T.comps)))
    for t, hs in hashes.items():
        for F, used in hs:
            r.count(hashes=1)
            es = [e for e in eq.get(t, ())]
            if not es or not used:
                continue
            for c in used:
                h = c.split(".")[1] if c.startswith(".") else c
                if h in ("", "@") or h.endswith("@"):
                    r.add("%s|hash %s address" % (t.replace(N, ""), h.rstrip("@")), F.where(), "the hash of %s depends on where %s is, not on what it holds"
                          % (t.replace(N, ""), h.rstrip("@") or "it"), "equal entries are not found")
                    continue
                if not any(h in e[2] for e in es):
                    r.add("%s|hash %s" % (t.replace(N, ""), h), F.where(), "the hash of %s depends on %s, which its equality ignores" % (t.replace(N, ""), h),
                          "equal entries are not found")
    r.require(r.counts.get("comparators", 0) >= 20, "the comparison functions")
    r.assumptions = ["a component read twice in one comparison has the same value", "strcmp, string and number comparisons are total orders"]
    return r
