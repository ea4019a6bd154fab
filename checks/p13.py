"""Results of lookups that can fail are never dereferenced on the failing path."""
import lookup
from core import Result
from ir import show

# Optional-returning accessors whose presence is a class invariant, with why.
TRUSTED = {
    "NodeChain::function_index": "absent only for inter-function chains; read only when inter-function "
                                 "reordering is disabled, where every chain is built for one function",
}


def check(prog, tier):
    r = Result("typestate over every function's CFG: a value produced by a lookup that can report absence "
               "(find/bounds iterator, nullable pointer, optional/StatusOr/Expected) must be proven present on every "
               "path before it is dereferenced")
    a = lookup.Analysis(prog)
    r.count(nullable_functions=len(a.nullable))
    for F in prog.functions:
        st, viol = a.check(F)
        r.count(lookup_sites=st[0], dereference_sites=st[1])
        for n, o, kind, txt, tgt in viol:
            if o is not None and any((o.get("f") or "").endswith("::" + t) for t in TRUSTED):
                continue
            r.add("%s|%s" % (F.q, show(tgt)), F.where(n),
                  "%s: '%s' may be absent here and is %s (obtained at line %s)" % (F.q, show(tgt), txt, o.get("l") if o else "?"))
        if st[0]:
            r.sample("%s: %d fallible lookups" % (F.q, st[0]))
    r.require(r.counts.get("lookup_sites", 0) > 50, "no fallible lookups found")
    r.assumptions = ["lookups whose key is an unmodified parameter of the function state a caller contract",
                     "keys collected in the same function from a container are still in it",
                     "debug assertions are taken as guards"] + ["%s: %s" % kv for kv in TRUSTED.items()]
    return r
