"""Shared machinery of the checks: parallel runs over functions, reports, evidence, verdict lines."""
import json, multiprocessing as mp, os, sys, time
import front
from front import AnalysisError, VERIF, REPO
from engine import Engine

class Report:
    """one violation.  `key` identifies the construct independently of line numbers."""
    def __init__(self, rule, key, where, detail, path=()):
        self.rule, self.key, self.where, self.detail, self.path = rule, key, where, detail, list(path)
    def line(self):
        return "%s: %s: %s" % (self.rule, self.where, self.detail)

def loc(I):
    return I.where()

def fmt_path(p):
    return ["%s:%s %s" % (fn, line, t) for (line, fn, t) in p]

_P = None
_MK = None
def _work(name_tu):
    name, tu = name_tu
    F = front._modcache_fn[(name, tu)]
    t = time.time()
    if os.environ.get("SA_TRACE"):
        print("start", name, flush=True)
    try:
        ck, e = _MK(_P, F)
    except AnalysisError as x:
        return (name, tu, None, str(x), {}, time.time() - t)
    if ck is None:
        return (name, tu, [], None, {}, 0)
    if os.environ.get("SA_TRACE"):
        print("end", name, round(time.time() - t, 1), flush=True)
    st = dict(getattr(ck, "stats", {}))
    st["steps"] = e.steps if e else 0
    st["joins"] = e.joins if e else 0
    return (name, tu, list(ck.reports.values()), None, st, time.time() - t)

def run_all(P, mk, roots, jobs=None):
    """mk(P, F) -> (checker, engine) after running, for every root; in parallel"""
    global _P, _MK
    _P, _MK = P, mk
    front._modcache_fn = {(F.name, F.mod.tu): F for F in roots}
    work = sorted(((sum(len(b) for b in F.blocks.values()), F.name, F.mod.tu) for F in roots), reverse=True)
    jobs = jobs or min(8, os.cpu_count() or 1)
    with mp.get_context("fork").Pool(jobs) as pool:
        res = pool.map(_work, [(n, t) for _, n, t in work], chunksize=1)
    reports, stats, errors, slow = [], {}, [], []
    for name, tu, reps, err, st, dt in res:
        if err is not None:
            errors.append("%s (%s): %s" % (name, tu, err))
            continue
        reports += reps
        for k, v in st.items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
            elif isinstance(v, set):
                stats.setdefault(k, set()).update(v)
        if dt > 2:
            slow.append((name, round(dt, 1)))
    return reports, stats, errors, slow
