"""Every context is as large as its algorithm's handlers need (C30)."""
from engine import NULL
from api import API
from front import AnalysisError
from common import Report, run_all
from check import Result
from flow import attempt, SHARED
from ctab import FnRef, G
import ctab, ranges, roles, tables
from ranges import RangeCheck, BIG
from copies import Known, inits, CD, MD, PD

FAR = 1 << 29
CIPHER = ("init", "do_cipher", "ctrl", "cleanup", "set_asn1_parameters", "get_asn1_parameters")
DIGEST = ("init", "update", "final", "copy", "ctrl", "cleanup")

class Alloc(RangeCheck):
    """the sizes of the objects a handler attaches to a key method context"""
    def __init__(self, prog, F):
        super().__init__(prog, F)
        self.sizes = set()
    def after(self, eng, st, I, callee, args, val, ok):
        A = API.get(callee) if callee else None
        if A is not None and A.kind in ("mem", "smem", "cmem") and A.size is not None and val is not None and val[0] == 'p':
            n = args[A.size]
            st.ps[('size', val[1])] = ('size', n[1] if n[0] == 'i' else None)
        if callee == "EVP_PKEY_CTX_set_data" and args[1] != NULL:
            n = st.ps.get(('size', args[1][1])) if args[1][0] == 'p' and args[1][2] == 0 else None
            self.sizes.add(None if n is None else n[1])
        super().after(eng, st, I, callee, args, val, ok)

def keymethods(P):
    """key type -> its handlers"""
    rows = None
    for F in tables.fnargs(P, "ENGINE_set_pkey_meths", 1):
        for n in tables.globals_of(F):
            m, g = ctab.find(P, n, F.mod.tu)
            if g and "gost_meth_minfo" in tables.dt_of(P, n, F.mod.tu):
                rows = [ctab.record(P, x if isinstance(x, dict) else None, "gost_meth_minfo") for x in ctab.elements(ctab.init(P, n, m.tu))]
    out = {}
    for r in rows or ():
        if r["nid"]:
            h, _ = tables.handlers(P, tables.fnargs1(P, "register_pmeth_gost"), r["nid"])
            fns = {api[len("EVP_PKEY_meth_set_"):]: {x.n for a in calls for x in a if isinstance(x, FnRef)} for api, calls in h.items()}
            if fns.get("init"):
                out[r["nid"]] = fns
    return out

def c30(tier="quick"):
    P = tables.program()
    R = Result()
    C, D = roles.ciphers(P), roles.digests(P)
    K = keymethods(P)
    names = {d.fn(k) for d in C for k in CIPHER} | {d.fn(k) for d in D for k in DIGEST} | {f for m in K.values() for fs in m.values() for f in fs}
    names.discard(None)
    err, coarse = ranges.summaries(P, names)
    R.undecided += err
    jobs = []                           # name, announced size, region, handler, ways to prepare the context
    for d in C:
        n = d.r.get("ctx_size")
        for k in CIPHER:
            if d.fn(k):
                jobs.append((d.name, n, ('get', CD), d.fn(k), d, k == "init", d.where))
    for d in D:
        for k in DIGEST:
            if d.fn(k):
                jobs.append((d.name, d.r.get("ctx_size", d.r.get("app_datasize")), ('get', MD), d.fn(k), None, True, d.where))
    sizes = {}
    def alloc(P, F):
        ck, e = attempt(P, F, Alloc)
        ck.reports = {}
        ck.stats = {"sizes": {(F.name, n) for n in ck.sizes}}
        return ck, e
    inif = {f for m in K.values() for f in m["init"]}
    _, st, e, _ = run_all(P, alloc, [P.fn[f] for f in sorted(inif)])
    R.undecided += e
    for f, n in st.get("sizes", ()):
        sizes.setdefault(f, set()).add(n)
    for nid, m in sorted(K.items()):
        ns = {n for f in m["init"] for n in sizes.get(f, {None})}
        n = next(iter(ns)) if len(ns) == 1 else None
        for f in sorted({f for fs in m.values() for f in fs}):
            jobs.append(("key type %d" % nid, n, ('get', PD), f, None, True, "register_pmeth_gost"))
    def work(P, F):
        name, size, region, f, d, plain, where = jobs[F.index]
        if plain or d is None:
            ck = RangeCheck(P, P.fn[f])
            ev, e = RangeCheck.SUM.get(f, ()), None
        else:
            ev, ck = set(), None
            pre = inits(P, d)
            for c in pre | {frozenset((o, n, ('i', 0)) for o, n, v in c) for c in pre}:
                ck, e = attempt(P, P.fn[f], lambda P, F: Known(P, F, c, d), caps=(400, 60))
                ev |= ranges.pack(ck.events)
        ck.reports = {}
        acc = [(lo, hi) for r, lo, hi, k, x in ev if r == region]
        if not isinstance(size, int):
            if acc:
                raise AnalysisError("the size of the context of %s was not found" % name)
            return ck, None
        for lo, hi in acc:
            if (hi < FAR and hi > size) or (hi >= FAR and lo > -FAR and lo >= size):
                key = "%s/%s" % (name, f)
                ck.reports[key] = Report("context-too-small", key, where,
                    "%s accesses byte %d of the context of %s, which has %d bytes" % (f, (hi if hi < FAR else lo + 1) - 1, name, size), [])
        ck.stats = {"accesses": {(name, f, lo, hi) for lo, hi in acc if hi < FAR}, "far": {(name, f) for lo, hi in acc if hi >= FAR}}
        return ck, None
    class Job:
        def __init__(self, i):
            self.index, self.name, self.mod, self.blocks = i, "%s/%s" % (jobs[i][0], jobs[i][3]), P.fn[jobs[i][3]].mod, P.fn[jobs[i][3]].blocks
    reps, st, err, slow = run_all(P, work, [Job(i) for i in range(len(jobs))])
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err
    most = {}
    for name, f, lo, hi in st.get("accesses", ()):
        most[name] = max(most.get(name, 0), hi)
    R.coverage["context sizes (announced, used)"] = {j[0]: [j[1], most.get(j[0])] for j in jobs}
    R.coverage["handlers that also index with a variable"] = sorted("%s/%s" % x for x in st.get("far", ()))
    R.coverage["explanation"] = ("For every cipher, digest and key method the offsets at which its handlers, and everything they call, access "
        "the context are collected from access summaries; for ciphers the handlers are followed with the constants that the algorithm's "
        "own initialisation leaves in the context, so that branches for other modes do not count. No offset may lie beyond the size the "
        "descriptor announces, or beyond the size of the object the key method allocates.")
    R.assumptions += SHARED + ["A variable index into an array inside the context stays inside that array (copies of variable length: C28)."]
    R.floor("kinds of contexts", len({j[0] for j in jobs}), 35)
    R.floor("handlers", len(jobs), 170)
    R.floor("bounded accesses", len(st.get("accesses", ())), 300)
    return R
