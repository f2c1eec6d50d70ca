"""Which bytes of which objects a function reads and writes, with summaries of called functions."""
from engine import Checker, Engine, NULL, INF, iv_hull
from front import AnalysisError
from api import API
from common import run_all
from flow import attempt
from c03 import FALL
import conv as CV
from sized import READS

RESET = ("_init", "_Init", "_reset", "_new", "_free", "_copy", "_cleanup", "INIT", "_set_key")
LOOK = ("_get", "_size", "_nid", "_type", "_flags", "_length", "_test", "_cmp", "_is_", "get0", "get1", "_ctrl", "_num", "_data")
BIG = 1 << 30

def region_of(base):
    """a name for an object that is the same in every function of one algorithm; None for locals"""
    if base[0] == 'g':
        return ('g', base[1])
    if base[0] != 'd':
        return None
    n = base[1]
    if n[0] == 'arg' and len(n) == 2:
        return n
    if n[0] == 'get' and n[1].startswith(("EVP_CIPHER_CTX_", "EVP_MD_CTX_", "EVP_PKEY_CTX_")):
        return ('get', n[1])
    if n[0] == 'm' and isinstance(n[2], int):
        r = region_of(n[1])
        return None if r is None else ('*', r, n[2])
    return None

def initial(k, c):
    """does the cell hold what was read from it (nothing was stored)?"""
    v = c[1]
    while v[0] == '+' or v[0] == 'p' and isinstance(v[1], tuple) and v[1][0] == 'd':
        v = ('s', v[1][1] if v[0] == 'p' else v[1])
    return v[0] == 's' and v[1][0] == 'm' and v[1][1] == k[0] and v[1][2] == k[1]

def root(r):
    while r[0] == '*':
        r = r[1]
    return r

class RangeCheck(Checker):
    """reports events (region, lo, hi, kind, exact)"""
    weak = True
    least = 16
    pointers = False              # also events ('P', origin) for stores of pointers
    stable = ("EVP_CIPHER_CTX_get_cipher_data", "EVP_MD_CTX_get0_md_data", "EVP_CIPHER_CTX_buf_noconst", "EVP_CIPHER_CTX_iv_noconst")
    SUM = {}                          # function -> set of events on its arguments and on context members
    def __init__(self, prog, F, want=None):
        super().__init__()
        self.prog, self.F = prog, F
        self.events = set()
        self.callees = set()
        self.want = want              # region, lo, hi -> interested?
        self.stats = {}
    def region(self, base):
        return region_of(base)
    def prune(self, eng, st, bases, b): pass
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        return CV.RANGES[CV.conv(self.prog, callee).split(":")[0]]
    def effects(self, eng, st, callee, args):
        return self.SUM.get(callee, ())
    # -- events
    def touch(self, eng, st, I, ptr, n, kind, what):
        b = eng.base_of(ptr)
        if b is None or n == ('i', 0):
            return
        r = self.region(b[0])
        if r is None:
            return
        ol, oh = (b[1], b[1]) if isinstance(b[1], int) else iv_hull(eng.rng(st, b[1])) if b[1] is not None else (0, BIG)
        nl, nh = iv_hull(eng.rng(st, n))
        exact = ol == oh and nl == nh
        if ol <= -BIG:
            ol = 0                        # an unknown index stays in the object
        lo, hi = max(ol, -BIG), min(oh + nh, BIG)
        if hi > lo:
            self.event(eng, st, I, (r, lo, hi, kind, exact), what)
    def event(self, eng, st, I, ev, what):
        """default: summary; reads count when nothing was written there before on the path"""
        r, lo, hi, kind, exact = ev
        if kind == 'w':
            if (exact or hi < 1 << 16 and what != "a store") and hi - lo > self.least:          # single stores would multiply the states
                self.mark(st, r, lo, hi)
        elif kind == 'r':
            done = tuple((k[1], k[1] + c[0]) for k, c in st.mem.items() if isinstance(k[1], int) and k[1] < hi and
                         lo < k[1] + c[0] and c[1] != ('x',) and self.region(k[0]) == r and not initial(k, c))
            for lo, hi in minus(((lo, hi),), st.ps.get(('wr', r), ('wr', ()))[1] + done):
                self.events.add((r, lo, hi, kind, exact))
            return
        self.events.add(ev)
    def mark(self, st, r, lo, hi):
        old = st.ps.get(('wr', r), ('wr', ()))[1]
        st.ps[('wr', r)] = ('wr', union(old, lo, hi))
    def load(self, eng, st, I, ptr, size):
        self.touch(eng, st, I, ptr, ('i', size), 'r', "a load")
    def store(self, eng, st, I, ptr, val, size):
        self.touch(eng, st, I, ptr, ('i', size), 'w', "a store")
        if self.pointers and size == 8 and pointer(self.F, I.args[0]):
            self.touch(eng, st, I, ptr, ('i', size), ('P', self.origin(eng, st, ptr, val)), "a store")
    def origin(self, eng, st, ptr, val):
        """where a stored pointer comes from"""
        if val == NULL or val[0] == 'i':
            return 'null'
        if val[0] == 'f':
            return 'static'
        b = eng.base_of(val)
        if b is None:
            return 'other'
        if b[0][0] == 'g':
            return 'static'
        if b[0][0] == 'h':
            return 'new'
        r, at = self.region(b[0]), eng.base_of(ptr)
        if r is not None and r[0] == '*' and at is not None and r[1:] == (self.region(at[0]), at[1]):
            return 'null'                       # the same member of another context of the kind
        if r is not None and r[0] == 'arg':
            return r
        return 'self' if at is not None and b[0] == at[0] else 'inside' if r is not None and r[0] == 'get' else 'other'
    def access(self, eng, st, I, ptr, size, kind, what):
        self.touch(eng, st, I, ptr, size, kind, what.split(".")[1] if "." in what else what)
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None or callee.startswith("llvm."):
            return
        if callee in self.prog.fn:
            self.callees.add(callee)
            for (r, lo, hi, kind, exact) in sorted(self.effects(eng, st, callee, args), key=lambda e: (e[3] != 'r', str(e))):
                m = self.mapped(eng, st, r, args)
                if m is None:
                    continue
                base, off = m
                rr = self.region(base)
                if rr is None:
                    continue
                ol, oh = (off, off) if isinstance(off, int) else iv_hull(eng.rng(st, off)) if off is not None else (0, BIG)
                l, h = max(ol + lo, -BIG), min(oh + hi, BIG)
                if kind[0] == 'P' and isinstance(kind[1], tuple):
                    i = kind[1][1]
                    kind = ('P', self.origin(eng, st, ('p', base, off), args[i]) if i < len(args) else 'other')
                if h > l:
                    self.event(eng, st, I, (rr, l, h, kind, exact and ol == oh), callee)
            return
        A = API.get(callee)
        if callee == "EVP_CIPHER_CTX_set_num":
            self.event(eng, st, I, (('get', 'num'), 0, 1, 'w', True), callee)
            return
        if callee in ("EVP_CIPHER_CTX_get_num", "EVP_CIPHER_CTX_num"):
            self.event(eng, st, I, (('get', 'num'), 0, 1, 'r', True), callee)
            return
        rd = READS.get(callee, {})
        for i, a in enumerate(args):
            if a[0] != 'p':
                continue
            if i in rd and rd[i][1] < len(args):
                self.touch(eng, st, I, a, args[rd[i][1]], 'r', callee)
            elif callee == "EVP_MD_CTX_ctrl" and i == 3 and args[1] == ('i', SET_KEY):
                self.touch(eng, st, I, a, args[2], 'r', callee)
            elif A is not None and i in A.out:
                n = CAPS.get(callee, {}).get(i)
                n = args[n] if n is not None and n < len(args) else ('i', BIG)
                self.touch(eng, st, I, a, n, 'w', callee)
            elif i == 0 and a[2] == 0:
                r = self.region(a[1])
                if r is not None and r[0] == '*':
                    if any(x in callee for x in RESET):
                        self.event(eng, st, I, (r, 0, BIG, 'w', True), callee)
                    elif not any(x in callee for x in LOOK):
                        self.event(eng, st, I, (r, 0, BIG, 'r', True), callee)
                        self.event(eng, st, I, (r, 0, BIG, 'w', True), callee)
    def mapped(self, eng, st, r, args):
        """object of the caller an object of the callee is"""
        if r[0] == 'arg':
            return eng.base_of(args[r[1]]) if r[1] < len(args) else None
        if r[0] == '*':
            m = self.mapped(eng, st, r[1], args)
            if m is None or not isinstance(m[1], int):
                return None
            b, o = m
            c = st.mem.get((b, o + r[2]))
            if c is not None:
                return eng.base_of(c[1])
            if b[0] in 'dg':
                return ('d', ('m', b, o + r[2], 8, 'sym')), 0
            return None
        if r[0] == 'get':
            return ('d', ('get', r[1], None)), 0
        return None

def pointer(F, o):
    if o[0] in 'gfn':
        return True
    if o[0] == 'v':
        I = F.ins.get(o[1])
        return I.t == 'ptr' if I is not None else any(a[0] == o[1] and a[2] == 'ptr' for a in F.args)
    return o == NULL

CAP = (400, 60)
SET_KEY = 0x1004
# number of bytes written through an output argument
CAPS = {"RAND_bytes": {0: 1}, "RAND_priv_bytes": {0: 1}, "OPENSSL_cleanse": {0: 1}}

def union(iv, lo, hi):
    out = []
    for l, h in iv:
        if h < lo or hi < l:
            out.append((l, h))
        else:
            lo, hi = min(lo, l), max(hi, h)
    out.append((lo, hi))
    return tuple(sorted(out))

def minus(a, b):
    out = list(a)
    for l, h in b:
        nxt = []
        for x, y in out:
            if h <= x or y <= l:
                nxt.append((x, y))
            else:
                if x < l:
                    nxt.append((x, l))
                if h < y:
                    nxt.append((h, y))
        out = nxt
    return tuple(out)

def inter(a, b):
    return tuple((max(l, x), min(h, y)) for l, h in a for x, y in b if max(l, x) < min(h, y))

def pack(evs):
    """merge the events"""
    d = {}
    for r, lo, hi, k, e in evs:
        if k[0] == 'P':
            d.setdefault((r, k, e, lo, hi), [(lo, hi)])
            continue
        d.setdefault((r, k, e), []).append((lo, hi))
    out = set()
    for x, v in d.items():
        r, k, e = x[:3]
        iv = ()
        for lo, hi in v:
            iv = union(iv, lo, hi)
        out |= {(r, lo, hi, k, e) for lo, hi in iv}
    return out

def summaries(P, names, pointers=False):
    """events of the given functions and of everything they call, to a fixed point (bottom up)"""
    RangeCheck.SUM = {}
    RangeCheck.pointers = pointers
    def each(P, F):
        try:
            ck, e = attempt(P, F, RangeCheck, caps=CAP)
        except AnalysisError:
            # too many paths: everything its pointer arguments lead to
            ck, e = RangeCheck(P, F), None
            for i, a in enumerate(F.args):
                if a[2] == 'ptr':
                    ck.events.add((('arg', i), 0, BIG, 'r', False))
                    if not F.argt[i].startswith("const "):
                        ck.events.add((('arg', i), 0, BIG, 'w', False))
            ck.callees = set()
            ck.coarse_ = True
        ck.reports = {}
        ck.stats = {"coarse": {F.name} if getattr(ck, "coarse_", False) else set(), "events": {(F.name,) + ev for ev in pack(ck.events)}, "callees": {(F.name, c) for c in ck.callees}}
        return ck, e
    todo, calls, err = set(names), {}, []
    known, coarse = set(), set()
    for rnd in range(12):
        res = run_all(P, each, [P.fn[n] for n in sorted(todo)])
        _, st, e, _ = res
        err = [x for x in err if x.split(" ")[0] not in todo] + e
        known |= todo
        coarse = (coarse - todo) | st.get("coarse", set())
        new = {}
        for ev in st.get("events", ()):
            new.setdefault(ev[0], set()).add(ev[1:])
        changed = set()
        for n in todo:
            x = {ev for ev in new.get(n, set()) if root(ev[0])[0] != 'g'}
            if x != RangeCheck.SUM.get(n):
                RangeCheck.SUM[n] = x
                changed.add(n)
        for a, b in st.get("callees", ()):
            calls.setdefault(a, set()).add(b)
        todo = {b for a in known for b in calls.get(a, ()) if b not in known}
        todo |= {a for a in known if calls.get(a, set()) & changed}
        if not todo:
            break
    return err, sorted(coarse)
