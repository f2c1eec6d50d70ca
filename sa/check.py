#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree.

exit 0  the property holds on everything analysed (listed known findings are printed)
exit 1  VIOLATION line(s); the replay file describes each violating construct
exit 2  no answer (the sources cannot be analysed, or the constructs the rule is about vanished)"""
import importlib, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import front
from front import AnalysisError, VERIF

CHECKS = {}
def _registry():
    with open(os.path.join(VERIF, "sa", "registry.json")) as f:
        return json.load(f)

class Result:
    def __init__(self, level="other"):
        self.level = level
        self.reports = []          # common.Report
        self.undecided = []        # functions whose analysis gave up
        self.coverage = {}
        self.assumptions = []
        self.floors = []           # (what, found, at least)
    def floor(self, what, found, least):
        self.floors.append((what, found, least))
        self.coverage[what] = found

def known(pid):
    """finding: property=C07 key=<key> <text>"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

def main():
    if os.environ.get("PYTHONHASHSEED") != "0":       # the order of sets is the same in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    reg = _registry()
    if pid not in reg:
        print("unknown property", pid)
        return 2
    mod, fn = reg[pid].split(":")
    try:
        front.ensure_tool()
        R = getattr(importlib.import_module(mod), fn)(tier)
    except AnalysisError as e:
        print("ERROR property=%s cannot be decided: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal failure" % pid)
        return 2
    kf = known(pid)
    seen, viol = {}, []
    for r in R.reports:
        if r.key in kf:
            seen[r.key] = r
        else:
            viol.append(r)
    for k, r in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kf[k], r.where))
    for u in R.undecided:
        print("UNDECIDED property=%s %s" % (pid, u))
    cov = dict(R.coverage)
    cov["floors"] = ["%s: %d found, at least %d required" % f for f in R.floors]
    cov["undecided"] = R.undecided
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=R.level, coverage=cov,
              assumptions=R.assumptions, violations=len(viol), wall_s=round(time.time() - t0, 2))
    ev["coverage"]["known_findings"] = sorted(seen)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for r in viol:
                f.write("%s\n  key: %s\n" % (r.line(), r.key))
                for p in r.path:
                    f.write("    via %s\n" % p)
        for r in viol[:20]:
            print("VIOLATION property=%s replay=%s %s" % (pid, rp, r.line()))
        return 1
    bad = [f for f in R.floors if f[1] < f[2]]
    if bad:
        print("ERROR property=%s the analysed constructs vanished: %s" % (pid, "; ".join("%s: %d < %d" % f for f in bad)))
        return 2
    if len(R.undecided) > 3:
        print("ERROR property=%s too many functions could not be analysed" % pid)
        return 2
    print("OK property=%s %s" % (pid, " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0

if __name__ == "__main__":
    sys.exit(main())
