"""Re-initialised contexts start a fresh message (C11)."""
from engine import Checker, Engine, NULL, INF, iv_hull
from front import AnalysisError
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
import ranges, roles, tables
from ranges import RangeCheck, BIG, region_of

SET_KEY = ranges.SET_KEY
SET_TAG = 0x11            # EVP_CTRL_AEAD_SET_TAG
UNPROTECTED = 0x28        # EVP_CTRL_PROCESS_UNPROTECTED: the expected authentication code of a CMS message
WIDE = 1 << 20
SMALL = 4000
AEAD = 0x200000           # EVP_CIPH_FLAG_AEAD_CIPHER
NUM = ('get', 'num')

class Given(RangeCheck):
    """what a control call of one kind writes"""
    def __init__(self, prog, F, cons):
        super().__init__(prog, F)
        self.cons = cons
    def start(self, eng, st):
        for i, v in self.cons.items():
            st.env[self.F.args[i][0]] = ('i', v)
    def effects(self, eng, st, callee, args):
        return effects(self, eng, st, callee, args)
    def call(self, eng, st, I, callee, args):
        self.before = dict(st.mem)

class Sub(RangeCheck):
    """one function with the constants its caller knows: events, constants at the end"""
    least = 0
    MEMO = {}
    def __init__(self, prog, F, cons, cells, num=None):
        super().__init__(prog, F)
        self.cons, self.cells, self.final, self.num = cons, cells, None, num
        self.endnum = set()
    def start(self, eng, st):
        if self.num is not None:
            st.ps['num'] = ('num', self.num)
        for i, v in self.cons:
            st.env[self.F.args[i][0]] = v
        for i, off, size, v in self.cells:
            st.mem[(('d', ('arg', i)), off)] = (size, v)
    def effects(self, eng, st, callee, args):
        return effects(self, eng, st, callee, args)
    def call(self, eng, st, I, callee, args):
        self.before = dict(st.mem)
        return numcall(self, eng, st, I, callee, args)
    def ret(self, eng, st, I, val):
        n = st.ps.get('num')
        self.endnum.add(n[1] if n is not None and n[1][0] == 'i' else None)
        c = frozenset((k[0][1][1], k[1], s, v) for k, (s, v) in st.mem.items()
                      if k[0][0] == 'd' and k[0][1][0] == 'arg' and len(k[0][1]) == 2 and isinstance(k[1], int) and v[0] in 'if')
        self.final = c if self.final is None else self.final & c

def numcall(ck, eng, st, I, callee, args):
    if callee == "EVP_CIPHER_CTX_set_num":
        ck.event(eng, st, I, (NUM, 0, 1, 'w', True), callee)
        st.ps['num'] = ('num', args[1])
        return [(st, ('i', 1))]
    if callee in ("EVP_CIPHER_CTX_get_num", "EVP_CIPHER_CTX_num"):
        ck.event(eng, st, I, (NUM, 0, 1, 'r', True), callee)
        n = st.ps.get('num')
        if n is not None:
            return [(st, n[1])]
    return None

def effects(ck, eng, st, callee, args):
    """what a call does, given the constants in the objects it receives"""
    F = ck.prog.fn[callee]
    cons, cells, at = [], [], {}
    for i, a in enumerate(args[:len(F.args)]):
        if a[0] in 'if' or a == NULL:
            cons.append((i, a))
            continue
        b = eng.base_of(a) if a[0] == 'p' else None
        if b is not None and isinstance(b[1], int) and b[0][0] in 'ad':
            at[i] = b
    for i, b in at.items():
        for (bb, o), (s, v) in ck.before.items():
            if bb == b[0] and isinstance(o, int) and o >= b[1] and v[0] in 'if':
                cells.append((i, o - b[1], s, v))
    num = st.ps.get('num')
    num = num[1] if num is not None and num[1][0] == 'i' and any(a == ('p', ('d', ('arg', 0)), 0) for a in args) else None
    key = (callee, tuple(cons), frozenset(cells), num)
    if key not in Sub.MEMO:
        Sub.MEMO[key] = None
        if len(F.ins) < SMALL:
            try:
                sub, e = attempt(ck.prog, F, lambda P, F: Sub(P, F, cons, cells, num), caps=(300, 60))
                Sub.MEMO[key] = (ranges.pack(sub.events), sub.final or frozenset(), sub.endnum)
            except AnalysisError:
                pass
    m = Sub.MEMO[key]
    ev = RangeCheck.SUM.get(callee, ()) if m is None else m[0]
    if any(e[0] == NUM and e[3] == 'w' for e in ev):
        st.ps.pop('num', None)
        if m is not None and len(m[2]) == 1 and None not in m[2]:
            st.ps['num'] = ('num', next(iter(m[2])))
    restore(ck, eng, st, ev, args)
    if m is None:
        return ev
    for i, off, s, v in m[1]:
        if i in at:
            st.mem[(at[i][0], at[i][1] + off)] = (s, v)
    return m[0]

def restore(ck, eng, st, ev, args):
    """constants the call did not write are still there"""
    wr = []
    for r, lo, hi, kind, exact in ev if ck.before else ():
        if kind != 'r':
            b = ck.mapped(eng, st, r, args)
            if b is not None:
                o = b[1] if isinstance(b[1], int) else None
                wr.append((b[0], -BIG if o is None else o + lo, BIG if o is None else o + hi))
                if b[0][0] == 'd' and b[0][1][0] == 'get':
                    wr.append((('get', b[0][1][1]), wr[-1][1], wr[-1][2]))
    for k, (s, v) in ck.before.items():
        if v[0] in 'if' and k not in st.mem and isinstance(k[1], int) and region_of(k[0]) is not None:
            r = region_of(k[0])
            if not any(b in (k[0], r) and lo < k[1] + s and k[1] < hi for b, lo, hi in wr):
                st.mem[k] = (s, v)

class Step(RangeCheck):
    """one call: which atoms of the message state are written before they are read"""
    def __init__(self, prog, F, atoms, pre, cons, key, judge, alg=None):
        super().__init__(prog, F)
        self.alg = alg
        self.atoms, self.pre, self.cons, self.key, self.judge = atoms, pre, cons, key, judge
        self.post = set()
        self.hits = set()
        self.regs = {a[0] for a in self.atoms} | {('get', "EVP_CIPHER_CTX_get_cipher_data"), ('get', "EVP_MD_CTX_get0_md_data")}
    def keep(self, base):
        return region_of(base) in self.regs
    def store(self, eng, st, I, ptr, val, size):
        super().store(eng, st, I, ptr, val, size)
        self.attach(eng, st, ptr, val)
    def attach(self, eng, st, ptr, val):
        """a new object takes the place of the one a context member pointed to"""
        b, v = eng.base_of(ptr), eng.base_of(val) if val[0] == 'p' else None
        r = region_of(b[0]) if b is not None else None
        if r is not None and v is not None and v[0][0] == 'h' and isinstance(b[1], int):
            st.ps['w'] = ('w', st.ps['w'][1] | frozenset(a for a in self.atoms if under(a[0], ('*', r, b[1]))))
    def start(self, eng, st):
        for i, v in self.cons.items():
            if v == 'nn':
                st.con[('arg', i)] = ((1, INF),)
            elif v == 0 and self.F.args[i][2] == 'ptr':
                st.env[self.F.args[i][0]] = NULL
            else:
                st.env[self.F.args[i][0]] = ('i', v)
        written, cells, num = self.pre
        st.ps['w'] = ('w', written)
        if num is not None:
            st.ps['num'] = ('num', num)
        for k, size, v in cells:
            st.mem[k] = (size, v)
    def event(self, eng, st, I, ev, what):
        r, lo, hi, kind, exact = ev
        mine = [a for a in self.atoms if a[0] == r and a[1] < hi and lo < a[2]]
        if not mine:
            return
        w = st.ps['w'][1]
        if kind == 'w':
            st.ps['w'] = ('w', w | frozenset(mine))
            return
        stale = [a for a in mine if a not in w]
        if stale and (exact or len(stale) == len(mine)) and self.judge:
            for a in stale[:1]:
                self.hits.add(a)
                key = "%s/%s+%d" % (self.key, name(a[0]).replace(" ", "-"), a[1])
                if key not in self.reports:
                    self.reports[key] = Report("stale-state", key, I.where(),
                        "%s reads %s (bytes %d..%d), which a previous message may have changed and %s does not set" %
                        (what, name(a[0]), a[1], a[2] - 1, self.judge), fmt_path(st.path(12)))
    def effects(self, eng, st, callee, args):
        return effects(self, eng, st, callee, args)
    def call(self, eng, st, I, callee, args):
        self.before = dict(st.mem)
        d = self.alg
        if callee == "EVP_MD_meth_get_init" and d is not None and d.fn("init"):
            return [(st, ('f', d.fn("init")))]
        if callee in ("EVP_CIPHER_CTX_iv_length", "EVP_CIPHER_CTX_get_iv_length") and d is not None and isinstance(d.r.get("iv_len"), int):
            return [(st, ('i', d.r["iv_len"]))]
        return numcall(self, eng, st, I, callee, args)
    def ret(self, eng, st, I, val):
        if val is not None and not any(h > 0 for l, h in eng.rng(st, val)):
            return
        cells = frozenset((k, s, v) for k, (s, v) in st.mem.items()
                          if isinstance(k[1], int) and v[0] in 'if' and ranges.region_of(k[0]) in self.regs)
        n = st.ps.get('num')
        self.post.add((st.ps['w'][1], cells, n[1] if n is not None and n[1][0] == 'i' else None))

def under(r, top):
    while r != top and r[0] == '*':
        r = r[1]
    return r == top

def name(r):
    if r[0] == 'get':
        return {"num": "the position in the block (num)"}.get(r[1], r[1].replace("EVP_CIPHER_CTX_", "").replace("EVP_MD_CTX_", "")
                                        .replace("get0_", "").replace("get_", "").replace("_noconst", ""))
    if r[0] == '*':
        return "the object at %s+%d" % (name(r[1]), r[2])
    return str(r[1])

class Top(Checker):
    """the place from which a handler is called without any knowledge"""
    before = {}

def alone(P, fn):
    """what a function does when nothing is known about its arguments"""
    class St: ps, mem = {}, {}
    t = Top()
    t.prog = P
    return effects(t, None, St, fn, [])

def atoms_of(P, fns, extra, kind):
    """the bytes message handlers write, cut at the boundaries of all accesses"""
    w, cuts = {}, {}
    for n in fns:
        for r, lo, hi, k, e in alone(P, n):
            if k == 'w' and -WIDE < lo and (hi < WIDE or r[0] == '*') and ranges.root(r)[0] == 'get' and \
                    ranges.root(r)[1].startswith((kind, "num")) and r[1] != "EVP_CIPHER_CTX_original_iv":
                w[r] = ranges.union(w.get(r, ()), max(lo, 0), hi)
    for n in list(fns) + list(extra):
        for r, lo, hi, k, e in RangeCheck.SUM.get(n, ()):
            cuts.setdefault(r, set()).update((max(lo, 0), hi))
    out = set()
    for r, iv in w.items():
        for lo, hi in iv:
            cs = sorted({c for c in cuts[r] if lo < c < hi} | {lo, hi})
            out |= {(r, a, b) for a, b in zip(cs, cs[1:])}
    return frozenset(out)

def keys(P, d):
    """the control call that sets a MAC's key, if it has one"""
    if not d.fn("ctrl"):
        return []
    ck, e = attempt(P, P.fn[d.fn("ctrl")], lambda P, F: Step(P, F, frozenset(), (frozenset(), frozenset(), None), {1: SET_KEY}, "", None, d), caps=(3000, 200))
    return [(d.fn("ctrl"), {1: SET_KEY})] if ck.post else []

def c11(tier="quick"):
    P = tables.program()
    R = Result()
    algs, parms = [], []
    for d in roles.ciphers(P):
        m = [d.fn("do_cipher")]
        both = [(d.fn("init"), {1: 'nn', 2: 'nn'})]
        # key and IV, key alone, IV alone
        cases = [("a new key and IV", both, both),
                 ("a new key", both, [(d.fn("init"), {1: 'nn', 2: 0})]),
                 ("a new IV", both, [(d.fn("init"), {1: 0, 2: 'nn'})])]
        if not d.r.get("iv_len"):
            cases = cases[1:2]
        elif d.flags & AEAD:
            del cases[1]                     # every message needs an IV of its own
        algs.append((d, m, cases, [(d.fn("ctrl"), {1: t}) for t in (SET_TAG, UNPROTECTED)] if d.fn("ctrl") else []))
    for d in roles.digests(P):
        m = [d.fn("update"), d.fn("final")]
        new = [(d.fn("init"), {})]
        keyed = keys(P, d)
        algs.append((d, m, [("a new key" if keyed else "initialising", new + keyed, new + keyed)], []))
    names = {f for d, m, cs, x in algs for f in m}
    names |= {f for d, m, cs, x in algs for c in cs for s in c[1:] for f, _ in s} | {f for d, m, cs, x in algs for f, _ in x}
    names = {n for n in names if n}
    err, coarse = ranges.summaries(P, names)
    R.undecided += err
    jobs = []
    for d, m, cases, given in algs:
        inits = {f for c in cases for f, _ in c[2]}
        at = atoms_of(P, [f for f in m if f], inits, "EVP_MD_CTX" if isinstance(d, roles.Digest) else "EVP_CIPHER_CTX")
        for title, base, steps in cases:
            jobs.append((d, at, title, base, steps, [f for f in m if f], given))
    def work(P, F):
        d, at, title, base, steps, m, given = jobs[F.index]
        key = "%s/%s" % (d.name, title.replace(" ", "-"))
        # what the application supplies for this message by a control call is not a trace of the last one
        for f, cons in given:
            ck, e = attempt(P, P.fn[f], lambda P, F: Given(P, F, cons), caps=(3000, 200))
            at = frozenset(a for a in at if not any(r == a[0] and lo < a[2] and a[1] < hi
                                                    for r, lo, hi, k, x in ck.events if k == 'w' and -WIDE < lo and hi < WIDE))
        tot = Step(P, P.fn[m[0]], at, None, {}, key, None)
        tot.stats = {"cases": 1, "atoms": len(at), "init states": 0}
        def follow(pre, steps):
            for f, cons in steps:
                post = set()
                for p in sorted(pre, key=str):
                    ck, e = attempt(P, P.fn[f], lambda P, F: Step(P, F, at, p, cons, key, None, d), caps=(3000, 200))
                    post |= ck.post
                if not post:
                    raise AnalysisError("%s: %s never succeeds" % (d.name, f))
                pre = post
            return pre
        pre = follow({(frozenset(), frozenset(), None)}, base)
        # a message of any length was processed (or begun) since
        pre = {(frozenset(), frozenset(c for c in cells if not any(a[0] == ranges.region_of(c[0][0]) and a[1] < c[0][1] + c[1]
                and c[0][1] < a[2] for a in at)), None) for w, cells, num in pre}
        pre = follow(pre, steps)
        tot.stats["init states"] = len(pre)
        e = None
        for f in m:
            for p in sorted(pre, key=str):
                ck, e = attempt(P, P.fn[f], lambda P, F: Step(P, F, at, p, {}, key, title, d), caps=(3000, 200))
                tot.reports.update(ck.reports)
        return tot, e
    class Job:
        def __init__(self, i):
            d, at, title, base, steps, m, given = jobs[i]
            self.index, self.name, self.mod = i, "%s (%s)" % (d.name, title), P.fn[m[0]].mod
            self.blocks = P.fn[m[0]].blocks
    reps, st, err, slow = run_all(P, work, [Job(i) for i in range(len(jobs))])
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err
    R.coverage["too large to follow"] = coarse
    R.coverage["explanation"] = ("The bytes of context data that the message handlers of an algorithm write are the state "
        "of a message.  Every way of initialising the context again is interpreted on a context whose message state is "
        "unknown; then each message handler is interpreted from every state in which initialisation succeeded, and must "
        "not read a byte of the message state that neither initialisation nor the handler itself has set.")
    R.assumptions += SHARED + ["A loop over an array with constant bounds writes all of it.",
        "Data supplied by a control call for the new message (the expected tag) is not a trace of the previous one.",
        "An AEAD cipher that receives a new key receives a new IV with it or before the next message."]
    R.floor("algorithms", len(algs), 28)
    R.floor("ways to re-initialise", st.get("cases", 0), 50)
    R.floor("pieces of message state", st.get("atoms", 0), 100)
    return R
