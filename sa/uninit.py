"""Uninitialised memory is not read (C25)."""
from engine import Checker, Engine, NULL, INF, iv_hull
from front import AnalysisError, Program
from api import API
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
import fresh, ranges, tables
from ranges import RangeCheck, BIG, region_of, union, minus

# smallest number of bytes read by initialisations (the ciphers of the engine all have keys of 32 bytes)
FIXED = {n: {3: 32, 4: 8} for n in ("EVP_CipherInit_ex", "EVP_EncryptInit_ex", "EVP_DecryptInit_ex")}
FIXED.update({n: {2: 32, 3: 8} for n in ("EVP_CipherInit", "EVP_EncryptInit", "EVP_DecryptInit")})

class Uninit(RangeCheck):
    """one function: reads of local variables and new objects that nothing on the path has written"""
    def __init__(self, prog, F):
        super().__init__(prog, F)
        self.stats = {"locals": set(), "reads": set(), "objects": set()}
        self.part = None
        self.before = {}
    def region(self, base):
        if base[0] == 'a' or base[0] == 'h':
            return ('L', base)
        return region_of(base)
    def lost(self, eng, st, I, base):
        st.ps.pop(('iw', ('L', base)), None)
        st.ps.pop(('pw', ('L', base)), None)
    def touch(self, eng, st, I, ptr, n, kind, what):
        """a copy of variable length to a fixed place sets only as many bytes as it surely has"""
        b = eng.base_of(ptr)
        self.part = None
        if kind == 'w' and b is not None and b[0][0] == 'a' and isinstance(b[1], int):
            nl, nh = iv_hull(eng.rng(st, n))
            if nl != nh and ('pw', ('L', b[0])) not in st.ps and what.startswith("memcpy"):
                self.part = ('pw', b[1], n)
        super().touch(eng, st, I, ptr, n, kind, what)
        self.part = None
    def wr(self, st, r):
        return st.ps.get(('iw', r), ('iw', ()))[1]
    def event(self, eng, st, I, ev, what):
        r, lo, hi, kind, exact = ev
        if r[0] != 'L':
            return
        base = r[1]
        self.stats["locals"].add((self.F.name,) + (base,))
        if kind == 'w':
            if exact and what == "a store":
                return                      # the cell remembers it
            if self.part is not None:
                st.ps[('pw', r)] = self.part
                return
            p = st.ps.get(('pw', r))
            if p is not None and not exact:
                st.ps[('pw', r)] = ('pw', None, None)
                lo = min(lo, p[1] or 0)
            w = union(self.wr(st, r), max(lo, 0), hi)
            for mem in (st.mem, self.before if what[:2] != "a " else {}):
                for k in mem:
                    if k[0] == base and isinstance(k[1], int) and mem[k][1][0] != 'u':
                        w = union(w, k[1], k[1] + mem[k][0])
            st.ps[('iw', r)] = ('iw', w)
        elif kind == 'r' and exact:
            self.stats["reads"].add((self.F.name, I.id))
            if base[0] == 'h' and ('und', base) not in st.ps:
                return
            m = minus(((lo, hi),), self.wr(st, r))
            p = st.ps.get(('pw', r))
            if p is not None and p[1] is not None:
                n = iv_hull(eng.rng(st, p[2]))
                m = minus(m, ((p[1], p[1] + (n[1] if what == "a load" else n[0])),))
            for mem in (st.mem, self.before if what[:2] != "a " else {}):
                for (b, o), (s, v) in mem.items():
                    if b == base and isinstance(o, int) and v[0] != 'u':
                        m = minus(m, ((o, o + s),))
            if m and (what != "a load" or m == [(lo, hi)] or m == ((lo, hi),)) and not self.escaped(st, base):
                whole = tuple(m) == ((lo, hi),)
                if whole or self.isarray(eng, base):
                    self.alarm(st, I, base, "%s reads bytes %d..%d of %s, which nothing on this path has set" %
                               (what, m[0][0], m[0][1] - 1, self.title(base)))
    def escaped(self, st, base):
        return ('esc', base) in st.ps
    def isarray(self, eng, base):
        if base[0] != 'a':
            return False
        J = self.F.ins.get(base[1])
        return J is not None and " x i8]" in str(J.j.get("at_"))
    def title(self, base):
        if base[0] == 'a':
            J = self.F.ins.get(base[1])
            return "the local variable %s" % (J.j.get("var") or J.j.get("nm") or J.id if J is not None else base[1])
        return "the memory just allocated"
    def alarm(self, st, I, base, text):
        key = "%s/%s/%s" % (self.F.name, I.loc[1] if hasattr(I, "loc") else I.id, self.title(base).split(" ")[-1])
        if key not in self.reports:
            self.reports[key] = Report("uninitialised", key, I.where(), "%s: %s" % (self.F.name, text), fmt_path(st.path(14)))
    def start(self, eng, st): pass
    def effects(self, eng, st, callee, args):
        return self.SUM.get(callee, ())
    def call(self, eng, st, I, callee, args):
        self.before = dict(st.mem)
        for i, n in FIXED.get(callee, {}).items():
            if i < len(args) and args[i][0] == 'p':
                self.touch(eng, st, I, args[i], ('i', n), 'r', callee)
        if callee is not None and callee.startswith("llvm."):
            return None
        for i, a in enumerate(args):
            if a[0] == 'u' and not (callee in self.prog.fn and self.unused(callee, i)):
                self.alarm(st, I, ('v', I.id), "passes an uninitialised value to %s" % callee)
        return None
    def unused(self, callee, i):
        F = self.prog.fn[callee]
        if i >= len(F.args):
            return True
        n = ('v', F.args[i][0])
        return not any(a == n for b in F.order for J in F.blocks[b] for a in operands(J))
    def ret(self, eng, st, I, val):
        if val is not None and val[0] == 'u':
            self.alarm(st, I, ('v', I.id), "returns an uninitialised value")
        for k, u in list(st.ps.items()):
            if k[0] != 'und' or u[2] is None:
                continue
            base, n = u[1:]
            out = val is not None and val[0] == 'p' and val[1] == base or ('pub', base) in st.ps
            if not out:
                continue
            self.stats["objects"].add((self.F.name, n))
            m = minus(((0, n),), self.wr(st, ('L', base)))
            for (b, o), (s, v) in st.mem.items():
                if b == base and isinstance(o, int) and v[0] != 'u':
                    m = minus(m, ((o, o + s),))
            miss = []
            for T in list(self.prog.structs.values()) + list(self.prog.typedefs.values()):
                if T["size"] == n:
                    miss.append([x[2] for x in T["f"] if any(l <= x[0] and x[0] + x[1] <= h for l, h in m)])
            if miss and all(miss) and st.objs.get(base) != 'zero':
                self.alarm(st, I, base, "hands out new memory without setting the member %s" % miss[0][0])
    def branch(self, eng, st, I, v, taken):
        if v[0] == 'u':
            self.alarm(st, I, ('v', I.id), "branches on an uninitialised value")
        return True
    def store(self, eng, st, I, ptr, val, size):
        super().store(eng, st, I, ptr, val, size)
        b = eng.base_of(ptr)
        if val[0] == 'u' and b is not None and b[0][0] in 'dg':
            self.alarm(st, I, ('v', I.id), "stores an uninitialised value")
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is not None and callee not in self.prog.fn and not callee.startswith("llvm."):
            A = API.get(callee)
            if A is not None and A.kind in ("mem", "smem", "cmem") and A.size is not None and val is not None and val[0] == 'p':
                st.ps.pop(('und', val[1]), None)
                if not A.zero:
                    n = args[A.size]
                    st.ps[('und', val[1])] = ('und', val[1], n[1] if n[0] == 'i' else None)
            # an unknown function may write whatever it gets
            for i, a in enumerate(args):
                b = eng.base_of(a) if a[0] == 'p' else None
                if b is not None and b[0][0] in 'ah' and (A is None or i in A.out and ok is not False or A.cb or i == 0 and callee.startswith('OSSL_PARAM_construct')):
                    self.event(eng, st, I, (self.region(b[0]), 0, BIG, 'w', False), callee)
            if callee == "EVP_PKEY_CTX_set_data" and args[1][0] == 'p':
                st.ps[('pub', args[1][1])] = ('pub', args[1][1])
        elif callee is None:
            for a in args:
                b = eng.base_of(a) if a[0] == 'p' else None
                if b is not None and b[0][0] in 'ah':
                    self.event(eng, st, I, (self.region(b[0]), 0, BIG, 'w', False), "an indirect call")
        super().after(eng, st, I, callee, args, val, ok)

def operands(J):
    yield from J.args
    if "b" in J.j and isinstance(J.j["b"], tuple):
        yield J.j["b"]
    yield from (v for v, _ in J.j.get("vo", ()))
    if isinstance(J.j.get("in"), dict):
        yield from J.j["in"].values()
    for k in ("c", "cv"):
        if isinstance(J.j.get(k), tuple):
            yield J.j[k]

def c25(tier="quick"):
    P = Program(mode="mark")
    R = Result()
    names = {f for f in P.fn if len(P.fn[f].ins) < 6000}
    err, coarse = ranges.summaries(P, names)
    big = sorted(set(P.fn) - names | set(coarse))
    def work(P, F):
        return attempt(P, F, Uninit)
    reps, st, err2, slow = run_all(P, work, [P.fn[f] for f in sorted(names - set(coarse))])
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err + err2
    R.coverage["too large to follow"] = big
    R.coverage["explanation"] = ("Every function is interpreted path by path with, for each local variable and each object "
        "it allocates, the bytes that something on the path has written.  A load, a branch, an argument, a result, a copy or "
        "a called function (through a summary of the bytes it reads before it writes them) must not use bytes that nothing "
        "has written; a failed library call leaves its outputs unwritten.  New objects that a function returns or attaches "
        "to a key context must have every member set.")
    R.assumptions += SHARED + ["A write that may happen (of a range with an unknown end, or inside a loop) counts as having happened: "
        "only memory that nothing on the path can have written is reported.",
        "Functions of other libraries write the outputs they are documented to write when they succeed."]
    R.floor("functions", len(names), 100)
    R.floor("local objects", len(st.get("locals", ())), 100)
    R.floor("objects handed out", len(st.get("objects", ())), 3)
    R.floor("reads", len(st.get("reads", ())), 100)
    return R
