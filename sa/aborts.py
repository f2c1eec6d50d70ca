"""No input terminates the process (C09)."""
import front
from front import Program, AnalysisError
from engine import Checker, Engine, mentions
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
from fieldset import FieldSets, evaluate, field_of
import ctab, roles, tables

DIE = {"OPENSSL_die", "abort", "exit", "_exit", "_Exit", "quick_exit", "__assert_fail", "__assert", "raise", "kill",
       "llvm.trap", "longjmp", "pthread_exit", "__stack_chk_fail", "err", "errx", "verr", "verrx", "ossl_assert_int",
       "pthread_kill", "tgkill", "alarm", "__assert_perror_fail", "std_abort", "thrd_exit", "_longjmp", "siglongjmp"}

class DieCheck(Checker):
    weak = True
    def __init__(self, prog, F, sets, table=None):
        super().__init__()
        self.prog, self.F, self.sets, self.table = prog, F, sets, table
        self.stats = {"sites": {(F.name, I.id) for I in sites(F)}}
        self.fld = {}
    def prune(self, eng, st, bases, b): pass
    def start(self, eng, st):
        if self.table:
            arg, cells = self.table
            st.env[self.F.args[arg][0]] = ('p', ('g', cells[0]), 0)
            for (g, off), c in cells[1].items():
                st.mem[(('g', g), off)] = c
    def loaded(self, eng, st, I, ptr, val):
        k = field_of(self.F, I.args[0])
        if k and val[0] == 's' and I.t != 'ptr':
            s = self.sets.values(k)
            if s is not None:
                self.fld[val[1]] = s
    def branch(self, eng, st, T, c, taken):
        for n, s in self.fld.items():
            if mentions(c, n):
                vs = [evaluate(c, n, x) for x in s]
                if None not in vs and not any(bool(v) == taken for v in vs):
                    return False
        return True
    def call(self, eng, st, I, callee, args):
        if callee in DIE:
            key = "%s/%s/%s" % (self.F.name, I.fn, callee)
            if key not in self.reports:
                self.reports[key] = Report("process-termination", key, I.where(),
                    "%s() is reached%s" % (callee, " for %s" % self.table[1][0] if self.table else ""), fmt_path(st.path(14)))
            return []
        return None

def sites(F):
    return [I for b in F.order for I in F.blocks[b] if I.op == "call" and I.callee in DIE]

KINDS = ("init", "do_cipher", "update", "final", "copy", "cleanup", "set_asn1_parameters", "get_asn1_parameters", "ctrl")

def reach(P, names):
    """functions that can be called, directly, from the given ones"""
    out, work = set(), [n for n in names if n in P.fn]
    while work:
        n = work.pop()
        if n not in out:
            out.add(n)
            F = P.fn[n]
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op == "call" and I.callee in P.fn:
                        work.append(I.callee)
                    for o in I.args:
                        if o[0] == 'f' and o[1] in P.fn:
                            work.append(o[1])
    return frozenset(out)

def cells_of(P, name, st):
    """memory of a descriptor and its template, from the initialisers"""
    out = {}
    def put(n, tu):
        v = ctab.init(P, n, tu) or {}
        tmpl = None
        for off, size, nm, t in P.structs[st]["f"]:
            x = v.get(off) if isinstance(v, dict) else None
            if isinstance(x, ctab.G):
                out[(n, off)] = (size, ('p', ('g', x.n), x.o))
                if nm == "template":
                    tmpl = x.n
            elif isinstance(x, ctab.FnRef):
                out[(n, off)] = (size, ('f', x.n))
            else:
                out[(n, off)] = (size, ('i', x or 0))
        return tmpl
    m, _ = ctab.find(P, name)
    t = put(name, m.tu)
    if t:
        put(t, m.tu)
    return (name, out)

def c09(tier="quick"):
    R = Result()
    tus = front.core_tus() + front.ecp_tus()
    # assertions count: they are active unless the build says otherwise
    P = Program(tus, defs=("-UNDEBUG", "-DCCGOST_DEBUG"), tag=".debug")
    roots = list(P.roots())
    sets = FieldSets(P, roots)
    work = [F for F in roots if sites(F)]
    pre = {}
    for F in work:
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "load":
                    k = field_of(F, I.args[0])
                    if k and k in sets.stores:
                        sets.values(k)
    desc = {"gost_cipher_st": roles.ciphers(P), "gost_digest_st": roles.digests(P)}
    handlers = [reach(P, [d.fn(k) for k in KINDS]) for d in desc["gost_cipher_st"] + desc["gost_digest_st"]]
    per = {}
    def each(P, F):
        ck, e = attempt(P, F, lambda P, F: DieCheck(P, F, sets))
        if ck.reports:
            for i, t in enumerate(F.argt):
                s = t.rstrip("*").strip().replace("struct ", "")
                s = {"GOST_cipher": "gost_cipher_st", "GOST_digest": "gost_digest_st"}.get(s, s)
                if s in desc and t.count("*") == 1:
                    # only the compiled-in descriptors are ever passed: decide it for each of them
                    ck.reports = {}
                    for d in desc[s]:
                        c2, e = attempt(P, F, lambda P, F: DieCheck(P, F, sets, (i, cells_of(P, d.name, s))))
                        ck.reports.update(c2.reports)
                        ck.stats["descriptor runs"] = ck.stats.get("descriptor runs", 0) + 1
                    break
            else:
                # what a member of a context can hold depends on the algorithm: only its own handlers see its contexts
                owners = [h for h in handlers if F.name in h]
                if owners:
                    ck.reports = {}
                    for h in sorted(set(map(frozenset, owners)), key=sorted):
                        if h not in per:
                            per[h] = FieldSets(P, [P.fn[n] for n in sorted(h)])
                        c2, e = attempt(P, F, lambda P, F: DieCheck(P, F, per[h]))
                        ck.reports.update(c2.reports)
                        ck.stats["algorithm runs"] = ck.stats.get("algorithm runs", 0) + 1
        return ck, e
    reps, st, err, slow = run_all(P, each, work)
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err
    R.floor("functions scanned for terminating calls", len(roots), 300)
    R.floor("terminating call sites", len(st.get("sites", ())), 3)
    R.coverage["functions with terminating calls"] = sorted(F.name for F in work)
    R.coverage["runs with a compiled-in descriptor"] = st.get("descriptor runs", 0)
    R.coverage["runs with the handlers of one algorithm"] = st.get("algorithm runs", 0)
    R.coverage["member value sets"] = {"%s+%d" % k: "%d values, %d..%d" % (len(v), min(v), max(v))
                                       for k, v in sorted(sets.sets.items()) if v and len(v) > 1}
    R.coverage["explanation"] = ("All calls of process-terminating functions in the library, with assertions compiled in, are shown "
        "unreachable: by path-sensitive constraints, by the set of values a counter member can hold (least solution over all "
        "stores in the program), or, for checks of algorithm descriptors, by evaluation for every compiled-in descriptor.")
    R.assumptions += SHARED[:1] + ["Context structures start zeroed; they are changed only by the program's stores and whole copies."]
    return R
