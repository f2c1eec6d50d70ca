"""A copied context shares no mutable memory with its source (C12)."""
from engine import Checker, Engine, NULL, INF, iv_hull
from front import AnalysisError
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
from api import API
import ranges, roles, tables
from ranges import RangeCheck, BIG, region_of
from fresh import Step, keys
from c03 import FALL
import conv as CV

COPY = 8                                  # EVP_CTRL_COPY
CUSTOM_COPY = 0x400                       # EVP_CIPH_CUSTOM_COPY
CD, MD, PD = "EVP_CIPHER_CTX_get_cipher_data", "EVP_MD_CTX_get0_md_data", "EVP_PKEY_CTX_get_data"

def pointer_cells(fns, region, SUM=None):
    """offset -> origins of the pointers the functions store there"""
    out = {}
    for f in fns:
        for r, lo, hi, k, e in (RangeCheck.SUM if SUM is None else SUM).get(f, ()):
            if r == region and k[0] == 'P' and hi - lo == 8:
                out.setdefault(lo, set()).add(k[1] if isinstance(k[1], str) else 'given')
    return out

def mutable(fns, region, cells, SUM=None):
    """the cells whose objects belong to the context or are changed through it"""
    wr = {r[2] for f in fns for r, lo, hi, k, e in (RangeCheck.SUM if SUM is None else SUM).get(f, ())
          if r[0] == '*' and r[1] == region and k == 'w'}
    return {o: c for o, c in cells.items() if c & {'new', 'self', 'inside'} or (c & {'given', 'other'} and o in wr)}

MODE = {"EVP_CIPHER_get_mode": lambda d: d.mode, "EVP_CIPHER_CTX_get_iv_length": lambda d: d.r.get("iv_len"),
        "EVP_CIPHER_CTX_get_block_size": lambda d: d.r.get("block_size"), "EVP_CIPHER_CTX_get_key_length": lambda d: d.r.get("key_len")}

class Known(RangeCheck):
    """a callback on a context whose constant members are known"""
    pointers = True
    def __init__(self, prog, F, cells, d=None):
        super().__init__(prog, F)
        self.cells, self.d = cells, d
    def call(self, eng, st, I, callee, args):
        m = MODE.get(callee)
        if m and self.d is not None and isinstance(m(self.d), int):
            return [(st, ('i', m(self.d)))]
        return super().call(eng, st, I, callee, args)
    def start(self, eng, st):
        for off, size, v in self.cells:
            st.mem[(getter(CD, 0), off)] = (size, v)
    def keep(self, base):
        return base == getter(CD, 0)

def inits(P, d):
    """the constant members of an initialised context, one set for each way to succeed"""
    ck, e = attempt(P, P.fn[d.fn("init")], lambda P, F: Step(P, F, frozenset(), (frozenset(), frozenset(), None), {1: 'nn'}, "", None, d), caps=(3000, 200))
    wr = [(lo, hi) for f in ("do_cipher", "ctrl", "cleanup") for r, lo, hi, k, e in RangeCheck.SUM.get(d.fn(f), ()) if r == ('get', CD) and k != 'r']
    return {frozenset((k[1], s, v) for k, s, v in cells if region_of(k[0]) == ('get', CD) and not any(lo < k[1] + s and k[1] < hi for lo, hi in wr))
            for w, cells, n in ck.post}

class Copy(RangeCheck):
    """one copying function"""
    def __init__(self, prog, F, name, src, dst, cells, consts, shared, fails):
        super().__init__(prog, F)
        self.name, self.src, self.dst, self.cells, self.consts, self.shared, self.fails = name, src, dst, cells, consts, shared, fails
        self.stats = {"copies": {name}}
    def keep(self, base):
        return base in (self.src, self.dst) or base[0] == 'h'
    def event(self, eng, st, I, ev, what): pass
    def start(self, eng, st):
        for i, v in self.shared.items():                      # constant arguments
            st.env[self.F.args[i][0]] = ('i', v)
        for b in {self.src, self.dst} - {None}:
            eng.symw[b[1]] = 64
            st.con[b[1]] = ((1, INF),)
        if self.dst is None:
            return
        for off, size, v in self.consts:
            st.mem[(self.src, off)] = st.mem[(self.dst, off)] = (size, v)
        for off in self.cells:                                # the bytes were copied before
            n = ('m', self.src, off, 8, 'sym')
            eng.symw[n] = 64
            v = ('p', ('d', n), 0)
            st.mem[(self.src, off)] = st.mem[(self.dst, off)] = (8, v)
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None:
            return A.fork if hasattr(A, "fork") else not A.cb
        return super().want_fork(callee, I)
    def ret(self, eng, st, I, val):
        ok = val is None or any(not (l == h == 0) for l, h in eng.rng(st, val))
        if val is not None and not self.fails(eng, st, val):
            ok = False
        for k, (s, v) in st.mem.items():
            b = None
            if self.dst is not None and k[0] == self.dst:
                b = v
            elif k[0][0] == 'h':
                b = v
            if b is None or not isinstance(k[1], int) or b[0] != 'p':
                continue
            o = self.owner(b[1])
            if o is None:
                continue
            at = o[1] if o[0] == 'cell' else None
            if at is not None and at not in self.cells:
                continue
            if k[0] == self.dst and at is not None and k[1] not in self.cells:
                continue
            if any(h <= 0 <= h and l == h == 0 for l, h in eng.rng(st, b)) and len(eng.rng(st, b)) == 1:
                continue
            if not ok:
                continue
            key = "%s+%d" % (self.name, k[1])
            self.reports.setdefault(key, Report("shared-by-copy", key, I.where(),
                "after a successful copy of %s the member at offset %d of %s still refers to memory of the original (%s)" %
                (self.name, k[1], "the copy" if k[0] == self.dst else "a part of the copy", "the original itself" if at is None else "its member at offset %d" % at),
                fmt_path(st.path(14))))
    def owner(self, base):
        """('cell', offset) when the object hangs on a member of the source; ('self',) for the source itself"""
        if base == self.src:
            return ('self',)
        if base[0] == 'd':
            n = base[1]
            while isinstance(n, tuple) and n and n[0] == 'm':
                if n[1] == self.src and isinstance(n[2], int):
                    return ('cell', n[2])
                if n[1] == self.src or n[1][0] != 'd':
                    return None
                n = n[1][1]
        return None

def getter(name, i):
    return ('d', ('get', name, ('p', ('d', ('arg', i)), 0)))

def c12(tier="quick"):
    P = tables.program()
    R = Result()
    C, D = roles.ciphers(P), roles.digests(P)
    RO = roles.roles(P)
    names = {d.fn(k) for d in C for k in ("init", "do_cipher", "ctrl", "cleanup")} | \
            {d.fn(k) for d in D for k in ("init", "update", "final", "copy", "ctrl", "cleanup")}
    pm = {f for f, rs in RO.items() if any(r.startswith("pmeth.") for r in rs)}
    prov = {}
    for f, rs in RO.items():
        for r in rs:
            if r.startswith("prov.") and not r.startswith("prov.base"):
                prov.setdefault((r.split(".")[1], P.fn[f].mod.tu), {}).setdefault(r.split(".")[2], set()).add(f)
    names |= pm | {f for d in prov.values() for fs in d.values() for f in fs}
    names.discard(None)
    err, coarse = ranges.summaries(P, names, pointers=True)
    R.undecided += err
    jobs, cells = [], {}
    for d in C:
        fns = [f for f in (d.fn(k) for k in ("init", "do_cipher", "ctrl", "cleanup")) if f]
        pre = inits(P, d)
        ev = {}
        for f in fns:
            ev[f] = set()
            for c in pre:
                ck, e = attempt(P, P.fn[f], lambda P, F: Known(P, F, c if f != d.fn("init") else (), d), caps=(400, 60))
                ev[f] |= ranges.pack(ck.events)
        mut = mutable(fns, ('get', CD), pointer_cells(fns, ('get', CD), ev), ev)
        cells[d.name] = mut
        if d.flags & CUSTOM_COPY and d.fn("ctrl"):
            jobs.append((d.name, d.fn("ctrl"), getter(CD, 0), getter(CD, 3), mut, d, {1: COPY}, "nonzero"))
        else:
            for o in mut:
                R.reports.append(Report("shared-by-copy", "%s+%d" % (d.name, o), d.where,
                    "contexts of %s are copied byte by byte although the member at offset %d refers to memory of the context" % (d.name, o), []))
    for d in D:
        fns = [f for f in (d.fn(k) for k in ("init", "update", "final", "copy", "ctrl", "cleanup")) if f]
        mut = mutable(fns, ('get', MD), pointer_cells(fns, ('get', MD)))
        cells[d.name] = mut
        if d.fn("copy"):
            jobs.append((d.name, d.fn("copy"), getter(MD, 1), getter(MD, 0), mut, d, {}, "positive"))
        else:
            for o in mut:
                R.reports.append(Report("shared-by-copy", "%s+%d" % (d.name, o), d.where,
                    "contexts of %s are copied byte by byte although the member at offset %d refers to memory of the context" % (d.name, o), []))
    for f, rs in RO.items():
        if "pmeth.copy" in rs:
            fns = [g for g in pm if P.fn[g].mod.tu == P.fn[f].mod.tu]
            mut = mutable(pm, ('get', PD), pointer_cells(pm, ('get', PD)))
            cells[f] = mut
            jobs.append((f, f, getter(PD, 1), getter(PD, 0), mut, None, {}, "positive"))
    for (op, tu), g in prov.items():
        fns = {f for fs in g.values() for f in fs}
        for f in g.get("dupctx", ()):
            pc = pointer_cells(fns, ('arg', 0))
            wr = {r[2] for x in fns for r, lo, hi, k, e in RangeCheck.SUM.get(x, ()) if r[0] == '*' and r[1] == ('arg', 0) and k == 'w' and (e or hi < BIG)}
            mut = {o: pc.get(o, set()) for o in wr}
            cells[f] = mut
            jobs.append((f, f, ('d', ('arg', 0)), None, mut, None, {}, "nonnull"))
    OK = {"nonzero": lambda eng, st, v: any(not (l == h == 0) for l, h in eng.rng(st, v)),
          "positive": lambda eng, st, v: any(h > 0 for l, h in eng.rng(st, v)),
          "nonnull": lambda eng, st, v: eng.rng(st, v) != ((0, 0),)}
    def work(P, F):
        name, f, src, dst, mut, d, args, conv = jobs[F.index]
        pre = {frozenset()}
        if isinstance(d, roles.Cipher) and not isinstance(d, roles.Digest):
            pre = inits(P, d)
        tot, e = None, None
        for c in pre:
            ck, e = attempt(P, P.fn[f], lambda P, F: Copy(P, F, name, src, dst, mut, c, args, OK[conv]), caps=(3000, 200))
            if tot is None:
                tot = ck
            tot.reports.update(ck.reports)
        return tot, e
    class Job:
        def __init__(self, i):
            self.index, self.name, self.mod, self.blocks = i, jobs[i][0], P.fn[jobs[i][1]].mod, P.fn[jobs[i][1]].blocks
    reps, st, err, slow = run_all(P, work, [Job(i) for i in range(len(jobs))])
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err
    R.coverage["explanation"] = ("For each kind of context (registered ciphers, digests, key methods, provider contexts) the members through which its "
        "callbacks reach memory of the context (new objects stored there, pointers into the context itself, objects written through them) are collected "
        "from access summaries; every path of the copying function that reports success is then followed from a state in which the copy's "
        "bytes equal the original's, and none may leave such a member, or a part of a new object, referring to the original's memory. "
        "Kinds of contexts that are copied byte by byte may have no such member.")
    R.assumptions += SHARED
    R.coverage["members that refer to memory of the context"] = {k: sorted(v) for k, v in cells.items() if v}
    R.floor("copying functions", len(st.get("copies", ())), 17)
    R.floor("kinds of contexts", len(C) + len(D), 28)
    R.floor("members to duplicate", sum(len(v) for v in cells.values()), 10)
    return R
