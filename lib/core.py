"""Driver: runs one property's static check over /repo's current sources,
prints findings, writes evidence, decides the exit status.

exit 0  the property held on everything analysed
exit 1  VIOLATION line(s)
exit 2  the analysis itself could not run (unparseable source, missing anchor)
"""
import argparse, importlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
from frontend import AnalysisBroken, VERIF


class Finding:
    def __init__(self, key, where, msg, detail=""):
        self.key, self.where, self.msg, self.detail = key, where, msg, detail


class Result:
    def __init__(self, rule):
        self.rule = rule
        self.findings = []
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ""

    def add(self, key, where, msg, detail=""):
        for f in self.findings:
            if f.key == key and f.where == where:
                return
        self.findings.append(Finding(key, where, msg, detail))

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken("nothing to analyse: " + what)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        d = json.load(fh)
    return {e["key"]: e for e in d.get("known", []) if e["property"] == pid}


def run(pid, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    mod = importlib.import_module("checks." + pid.lower())
    prog = frontend.program()
    res = mod.check(prog, tier)
    known = known_findings(pid)
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    print("property %s: %s" % (pid, res.rule))
    print("analysed: %d translation units, %d functions; %s" % (
        len(prog.units), len(prog.functions), ", ".join("%s=%s" % kv for kv in sorted(res.counts.items()))))
    for f in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.where, f.msg))
    replay = os.path.join(VERIF, "build", "replay")
    for n, f in enumerate(new):
        os.makedirs(replay, exist_ok=True)
        p = os.path.join(replay, "%s-%d.txt" % (pid, n))
        with open(p, "w") as fh:
            fh.write("property: %s\nrule: %s\nwhere: %s\nkey: %s\nwhat: %s\n%s\n" % (pid, res.rule, f.where, f.key, f.msg, f.detail))
            fh.write("replay: cd /verif && python3 lib/core.py %s --tier %s\n" % (pid, tier))
        if n < 25:
            print("%s: %s" % (f.where, f.msg))
        if n < 25:
            print("VIOLATION property=%s replay=%s" % (pid, p))
    cov = {"explanation": res.explanation or res.rule, "rule": res.rule,
           "translation_units": len(prog.units), "functions": len(prog.functions)}
    cov.update(res.counts)
    if res.samples:
        cov["samples"] = res.samples
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return 1 if new else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    try:
        if a.setup:
            frontend.build_tool()
            frontend.extract(frontend.all_units())
            return 0
        return run(a.property, a.tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN: the analysis itself failed", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
