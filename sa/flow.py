"""Path-sensitive rules decided by abstract interpretation of every function: C03 (failures), C07 (ownership),
C10 (absent objects)."""
import front
from front import Program, AnalysisError
from engine import Engine, Budget
from common import run_all
from check import Result
import conv as CV
import roles, tables

class Failed:
    """stands in for a checker whose run gave no answer"""
    def __init__(self, why):
        self.reports, self.stats, self.why = {}, {}, why

def attempt(P, F, mkck, caps=(3000, 200, 24)):
    """run the checker; when a run is too large, join states earlier.  A run that joined early may prove the
    absence of violations but its reports are not believed."""
    err = None
    for i, cap in enumerate(caps):
        ck = mkck(P, F)
        e = Engine(F, P, ck, cap=cap)
        try:
            e.run()
        except (Budget, AnalysisError) as x:
            err = x
            continue
        if i and ck.reports:
            raise AnalysisError("too many paths (%s) and not settled by joining them" % err)
        return ck, e
    raise AnalysisError(str(err))

def run(P, mkck, roots):
    def mk(P, F):
        return attempt(P, F, mkck)
    return run_all(P, mk, roots)

def result(R, reports, stats, errors, what):
    R.reports += sorted(reports, key=lambda r: (r.key, r.where))
    R.undecided += errors
    R.coverage["abstract_steps"] = stats.get("steps", 0)
    R.coverage["explanation"] = what

SHARED = ["The IR is compiled from the current sources with the build's defines; calls inside a file are inlined, calls "
          "between files and into OpenSSL follow the return and ownership conventions of sa/api.py and sa/conv.py.",
          "Loops are followed to a fixed point with widening; function pointers other than the registered ones are opaque."]

def c03(tier="quick"):
    import c03 as M
    P = tables.program()
    M.ErrCheck.ROLES = roles.roles(P)
    M.ErrCheck.EXEMPT = EXEMPT_C03
    roots = [F for F in P.roots() if M.rc_of(P, F, M.ErrCheck.ROLES)]
    reps, st, err, slow = run(P, M.ErrCheck, roots)
    R = Result()
    result(R, reps, st, err, "Every call that can fail, in every function whose result reports success or failure (the "
           "convention follows from the role the function is registered for), forks into a failing and a succeeding "
           "continuation; a failing continuation that reaches a return with a success value is a violation.")
    R.floor("functions", len(roots), 150)
    R.floor("fallible call sites", len(st.get("sites", ())), 500)
    R.coverage["roles"] = len(M.ErrCheck.ROLES)
    R.coverage["tolerated failures"] = ["%s %s: %s" % (k[0], k[1], v) for k, v in EXEMPT_C03.items()]
    R.assumptions += SHARED
    return R

EXEMPT_C03 = {
    ("gost_prov_mac.c", "EVP_MD_CTX_ctrl", 1, 3):
        "fails only for digests without adjustable size, whose size was compared with the wanted one before",
}

def c07(tier="quick"):
    import own as M
    P = tables.program()
    M.summaries(P)
    roots = [F for F in P.roots() if M.relevant(P, F)]
    reps, st, err, slow = run(P, M.OwnCheck, roots)
    R = Result()
    result(R, reps, st, err, "Each object acquired, released or handed over on a path is tracked through locals, fields and "
           "arguments; at each return every object still owned must be reachable by the caller, and no object is "
           "released twice or used after release, also when any fallible call on the path fails.")
    R.floor("functions", len(roots), 100)
    for k, v in sorted(st.items()):
        if isinstance(v, set):
            R.floor(k.replace("_", " "), len(v), 150 if "site" in k else 0)
    R.coverage["functions that release an argument"] = sorted(CV.FREES_ARG)
    R.assumptions += SHARED
    return R

def c10(tier="quick"):
    import nulls as M
    P = tables.program()
    M.summaries(P)
    rl = roles.roles(P)
    roots = [F for F in P.roots() if M.relevant(P, F)]
    def mk1(P, F):
        ck = M.NullCheck(P, F)
        return ck
    def first(P, F):
        ck, e = attempt(P, F, mk1)
        ck.stats["mine"] = {(F.name, i) for i in ck.mine}
        return ck, e
    _, st, err, _ = run_all(P, first, roots)
    nn = {}
    for n, i in sorted(st.get("mine", ())):
        # command functions use their argument according to the command
        if not any(r.endswith(("ctrl", "ctrl_str")) for r in rl.get(n, ())):
            nn.setdefault(n, []).append(i)
    reps, st, err, slow = run(P, lambda P, F: M.NullCheck(P, F, nnargs=nn), roots)
    R = Result()
    result(R, reps, st, err, "Results of getters that may have nothing to return, optional members of decoded structures and "
           "results of failing constructors are tracked; each is proved non-null by a test on the path, or by what a "
           "successful call guarantees, before any load, store or call that dereferences it, including dereferences by "
           "the repository's own functions.")
    R.floor("functions", len(roots), 120)
    R.floor("dereference sites", len(st.get("deref_sites", ())), 2000)
    R.floor("sources of absent pointers", len(st.get("nullable_sources", ())), 100)
    R.coverage["functions that need an argument"] = len(nn)
    R.assumptions += SHARED
    return R
