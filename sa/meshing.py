"""No block is processed without the key meshing check (C24)."""
from engine import Checker, Engine, NULL, INF, iv_hull
from front import AnalysisError
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
import ranges, roles, tables
from ranges import RangeCheck, region_of
from fresh import Step, restore
from copies import CD, MD, getter

KEYSET = ("gost_key", "gost_key_nomask", "magma_key", "gost_key_impl", "grasshopper_set_encrypt_key")
LONG = 1 << 20        # a section length no constant of the code should coincide with
BLOCKS = 5            # blocks followed on one path
# identifier -> (block size, kind, section length).  "member": the counter is a member and the section 1024 bytes when
# meshing is on (RFC 4357); "num": the counter is the context's num and the section length a member (RFC 8645);
# "inner": counter and section length are members of the MAC context behind the digest context
SPEC = {(813, False): (8, "member", 1024), (814, False): (8, "member", 1024), (975, False): (8, "member", 1024),
        (815, True): (8, "member", 1024), (976, True): (8, "member", 1024),
        (1174, False): (8, "num", 32), (1175, False): (8, "num", 32),
        (1177, False): (16, "num", 64), (1178, False): (16, "num", 64), (1178, True): (16, "inner", 64)}
COUNTER, ENABLE, SECTION, LEFT = ("count", "num"), ("key_meshing",), ("section_size", "key_meshing"), ("bytes_left",)

class Mesh(Step):
    """one call of a message handler that starts with `v0` bytes of the section used up"""
    def __init__(self, prog, F, cells, num, d, name, bs, section, v0, exitcell, inner):
        super().__init__(prog, F, frozenset(), (frozenset(), cells, num), {}, "", None, d)
        self.regs = {('get', CD), ('get', MD)} | ({inner[0]} if inner else set())
        self.name, self.bs, self.section, self.exitcell, self.inner = name, bs, section, exitcell, inner
        up = -(-v0 // bs) * bs
        self.g0 = frozenset({up} | ({-bs} if up == 0 and inner is None else set()))
        self.stats = {"steps of": set()}
    widen_cells = True
    def widen_class(self, eng, st, v):
        return st.ps.get('g')
    def start(self, eng, st):
        super().start(eng, st)
        st.ps['g'] = ('g', self.g0, False, 0)
    def call(self, eng, st, I, callee, args):
        if st.ps['g'][3] >= BLOCKS:
            return []
        if callee in ("EVP_CIPHER_CTX_get_block_size", "EVP_CIPHER_get_block_size") and self.inner:
            self.before = dict(st.mem)
            return [(st, ('i', self.bs))]
        return super().call(eng, st, I, callee, args)
    def effects(self, eng, st, callee, args):
        ev = () if self.classify(eng, st, callee, args) or callee in self.KEYED else self.SUM.get(callee, ())
        restore(self, eng, st, ev, args)
        return ev
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        k = self.classify(eng, st, callee, args)
        if callee == "EVP_Cipher" or k and callee not in self.prog.fn:
            restore(self, eng, st, (), args)
        if k and ok is not False:
            self.step(eng, st, I, k, callee)
    def classify(self, eng, st, callee, args):
        if callee is None or not args:
            return None
        b = eng.base_of(args[0])
        if self.inner:
            if b is None or b[0][0] != 'd' or b[0][1][:3] != ('m', self.inner[2], self.inner[1]):
                return None
            if callee == "EVP_Cipher":
                return 'block'
            if callee in ("EVP_EncryptInit_ex", "EVP_CipherInit_ex", "EVP_EncryptInit_ex2") and args[3] != NULL:
                return 'mesh'
            return None
        if b is None or region_of(b[0]) not in (('get', CD), ('get', MD)) or callee not in self.prog.fn:
            return None
        if callee in self.REKEY:
            return 'mesh'
        if len(args) > 1 and any(a[0] == 'p' and a[1][0] == 'g' for a in args[1:]):
            return None                     # derives a key from constants
        return 'block' if callee in self.BLOCK else None
    def step(self, eng, st, I, k, callee):
        _, g, fresh, n = st.ps['g']
        self.stats["steps of"].add((self.name, self.F.name, k))
        S = self.section
        if k == 'mesh':
            if fresh:
                return
            if not any(x >= S for x in g):
                self.rep(st, I, "early", "changes the key although the section is not complete (%s bytes since the last change)" % max(g))
            st.ps['g'] = ('g', frozenset({0}), True, n)
            return
        ok = frozenset(x for x in g if fresh or x < S)
        if not ok:
            self.rep(st, I, "late", "processes a block with %s although the section of %d bytes is complete and the key was not changed" % (callee, S))
            ok = frozenset({0})
        st.ps['g'] = ('g', frozenset(x + self.bs for x in ok), False, n + 1)
    def ret(self, eng, st, I, val):
        if val is not None and not any(h > 0 for l, h in eng.rng(st, val)):
            return
        _, g, fresh, n = st.ps['g']
        if self.exitcell is None or not n:
            return
        if self.exitcell == 'num':
            v = st.ps.get('num')
            v, low = (v[1] if v is not None else None), self.bs - 1
        else:
            v, low = st.mem.get(self.exitcell, (0, None))[1], 0
        l, h = iv_hull(eng.rng(st, v)) if v is not None else (-INF, INF)
        if not any(l <= x and x - low <= h for x in g) or l <= -INF or h >= INF:
            self.rep(st, I, "counter", "returns with the counter at %s after %d blocks, not at %s" %
                     ("an unknown value" if l <= -INF or h >= INF else l if l == h else "%d..%d" % (l, h), n, max(g)))
    def rep(self, st, I, what, text):
        key = "%s/%s/%s" % (self.name, self.F.name, what)
        if key not in self.reports:
            self.reports[key] = Report("key-meshing", key, I.where(), "%s: %s %s" % (self.name, self.F.name, text), fmt_path(st.path(14)))

def layout(P, size, need):
    """the structure of that size with one member of each of these sets: the offsets"""
    for T in list(P.structs.values()) + list(P.typedefs.values()):
        if T["size"] == size:
            f = {n: (o, s) for o, s, n, t in T["f"]}
            r = [next((f[n] for n in ns if n in f), None) for ns in need]
            if all(r):
                return r
    return None

def c24(tier="quick"):
    P = tables.program()
    R = Result()
    C, D = roles.ciphers(P), roles.digests(P)
    todo, seen = [], set()
    for d in C + D:
        k = (d.r.get("nid"), isinstance(d, roles.Digest))
        s = SPEC.get(k)
        if s:
            seen.add(k)
            todo.append((d, s))
    for n in sorted(set(SPEC) - seen):
        R.undecided.append("no algorithm with the identifier %d" % n[0])
    hs = {(d.name, k): d.fn(k) for d, s in todo for k in ("do_cipher", "update", "final") if d.fn(k)}
    err, coarse = ranges.summaries(P, set(hs.values()))
    R.undecided += err
    callers = rekeying(P)
    Mesh.REKEY = callers
    first = lambda f: P.fn[f].argt[0].replace("const ", "").replace(" ", "") if P.fn[f].argt else None
    Mesh.KEYED = {f for f in KEYSET if f in P.fn}
    types = {first(f) for f in Mesh.KEYED}
    Mesh.BLOCK = {f for f in RangeCheck.SUM if f not in callers and first(f) in types and
                  any(r[0] == 'arg' and k == 'w' for r, lo, hi, k, e in RangeCheck.SUM[f])}
    jobs = []
    for d, (bs, kind, S) in todo:
        size = d.r.get("ctx_size", d.r.get("app_datasize"))
        dig = isinstance(d, roles.Digest)
        base = getter(MD if dig else CD, 0)
        for k in ("update", "final") if dig else ("do_cipher",):
            f = d.fn(k)
            if not f:
                continue
            starts = [(S, v0) for v0 in [0, bs, S - bs, S] + ([S - 1] if kind == "num" else [])]
            if kind != "member":
                starts.append((LONG, LONG - bs))
            for S, v0 in starts:
                for on in (True, False):
                    if not on and (kind == "inner" or S == LONG):
                        continue
                    cells, num, ex, inner, left = set(), None, None, None, None
                    if kind == "member":
                        L = layout(P, size, (COUNTER, ENABLE))
                        if L is None:
                            raise AnalysisError("the counter of %s was not found" % d.name)
                        cells = {((base, L[0][0]), L[0][1], ('i', v0)), ((base, L[1][0]), L[1][1], ('i', int(on)))}
                        ex = (base, L[0][0])
                        lo = layout(P, size, (LEFT,))
                        left = lo and ((base, lo[0][0]), lo[0][1])
                    elif kind == "num":
                        L = layout(P, size, (SECTION,))
                        if L is None:
                            raise AnalysisError("the section length of %s was not found" % d.name)
                        cells, num, ex = {((base, L[0][0]), L[0][1], ('i', S if on else 0))}, ('i', v0), 'num'
                    else:
                        T = next((T for n, T in sorted(P.structs.items()) if {"section_size", "num", "cctx"} <= {x[2] for x in T["f"]}), None)
                        po = layout(P, size, (("cmac_ctx",),))
                        if T is None or po is None:
                            raise AnalysisError("the MAC context of %s was not found" % d.name)
                        fo = {n: (o, s) for o, s, n, t in T["f"]}
                        ib = ('d', ('m', base, po[0][0], 8, 'sym'))
                        if "nlast_block" in fo:
                            left = ((ib, fo["nlast_block"][0]), fo["nlast_block"][1])
                        cells = {((ib, fo["num"][0]), fo["num"][1], ('i', v0)), ((ib, fo["section_size"][0]), fo["section_size"][1], ('i', S))}
                        ex, inner = (ib, fo["num"][0]), (region_of(ib), fo["cctx"][0], ib)
                    for n in (0, 1, bs) if left else (None,):
                        cc = cells if n is None else cells | {left + (('i', n),)}
                        jobs.append((d, f, frozenset(cc), num, bs, S if on else INF, v0, ex if on and k != "final" else None, inner))
    def work(P, F):
        d, f, cells, num, bs, S, v0, ex, inner = jobs[F.index]
        return attempt(P, P.fn[f], lambda P, F: Mesh(P, F, cells, num, d, d.name, bs, S, v0, ex, inner), caps=(3000,))
    class Job:
        def __init__(self, i):
            d, f = jobs[i][:2]
            self.index, self.name, self.mod, self.blocks = i, "%s/%s/%d" % (d.name, f, i), P.fn[f].mod, P.fn[f].blocks
    reps, st, err, slow = run_all(P, work, [Job(i) for i in range(len(jobs))])
    best = {}
    for r in reps:
        best.setdefault(r.key, r)
    R.reports += [best[k] for k in sorted(best)]
    R.undecided += err
    ev = st.get("steps of", set())
    R.coverage["handlers and what they do"] = sorted("%s/%s: %s" % x for x in ev)
    R.coverage["starting states"] = len(jobs)
    for d, s in todo:
        for k in ("do_cipher", "update"):
            f = d.fn(k)
            if f and not any(e[0] == d.name and e[2] == 'block' for e in ev):
                R.undecided.append("no block operation was found in %s of %s" % (f, d.name))
    R.coverage["explanation"] = ("Each message handler of the ciphers and codes with key meshing is interpreted from "
        "starting states that place its byte counter at the beginning, inside, at the last block and at the end of a section, "
        "with meshing on and off, for data of any length; a second counter of bytes since the last change of key accompanies "
        "every path.  A key change must happen only when a section is complete, a block only when it is not (or the key was "
        "just changed), and the handler must return with its own counter in step with the bytes processed.")
    R.assumptions += SHARED + ["%d blocks are followed on one path; the starting states cover all positions relative to the end "
        "of a section." % BLOCKS, "A block function writes only the key schedule it is given and the block it produces.",
        "Block functions have the type of the key schedule functions' first argument."]
    R.floor("algorithms with key meshing", len(todo), 10)
    R.floor("handlers that process blocks", len({e[:2] for e in ev if e[2] == 'block'}), 12)
    return R

def rekeying(P):
    """functions that set a new key schedule, directly or through others"""
    calls = {}
    for m in P.mods:
        for f, cs in m.calls.items():
            calls.setdefault(f, set()).update(cs)
    out = set(KEYSET)
    while True:
        new = {f for f, cs in calls.items() if f not in out and cs & out}
        if not new:
            return out
        out |= new
