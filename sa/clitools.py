"""Exit status of the checksum programs (C19)."""
import front
from front import Program, AnalysisError
from engine import Checker, Engine, NULL, INF, iv_hull
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt
from sized import lin
from auth import strip

STD = (('g', 'stdin'), ('g', 'stdout'), ('g', 'stderr'))
class ExitCheck(Checker):
    """State: ('bad',) something failed; ('end', f) end of stream f reached without error; ('pend', f) end or error;
    ('fd', x) last read of descriptor x: 'open' | 'data' | 'end' | 'lost'; ('match',); ('list',) check mode."""
    def __init__(self, prog, F):
        super().__init__()
        self.prog, self.F = prog, F
        self.stats = {"events": set(), "exits": set()}
        self.exits0 = 0
    def widen_class(self, eng, st, v):
        if v[0] in ('i', 's', '+'):
            lo, hi = iv_hull(eng.rng(st, v))
            return 'pos' if lo >= 1 else 'zero' if lo == hi == 0 else 'any'
        return None
    def coarse(self, eng, st, I, v):
        if v[0] in ('i', 's', '+') and I.t != 'ptr':
            lo, hi = iv_hull(eng.rng(st, v))
            n = ('phi', I.id)
            if lo >= 1:
                return eng.sym2(st, n, 32, ((1, INF),))
            if (lo, hi) != (0, 0):
                return eng.sym2(st, n, 32, ((-INF, INF),))
        if v[0] == 'p' and v[2] != 0:
            return ('p', v[1], eng.sym2(st, ('phio', I.id), 64, ((-INF, INF),)))
        return None
    def simplify(self, eng, st, b):
        if st.ps.get(('bad',)):
            # only the exit status matters from here on
            st.ps = {k: v for k, v in st.ps.items() if k[0] in ('bad', 'opt')}
        st.objs = {}
        st.mem = {k: c for k, c in st.mem.items() if c[0] >= 4 and k[0][0] == 'a'}
        names = set()
        for v in list(st.env.values()) + [c[1] for c in st.mem.values()] + [v for v in st.ps.values() if isinstance(v, tuple)]:
            while isinstance(v, tuple) and v and v[0] in ('s', '+'):
                v = v[1]
                names.add(v)
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'p' and v[1][0] == 'd':
                names.add(v[1][1])
        st.con = {k: r for k, r in st.con.items() if k in names and (k[0] != 'm' or k[1] in STD)}
    def loaded(self, eng, st, I, ptr, val):
        b = eng.base_of(ptr)
        if b is not None and b[0] in STD:
            eng.refine(st, val, ((1, INF),))
    def bad(self, st, why):
        if not st.ps.get(('bad',)):
            st.ps[('bad',)] = why
    def subst(self, eng, st, old, new): pass
    def key(self, a):
        return a if a[0] in 'spf+' else ('?',)
    def ev(self, I, what):
        self.stats["events"].add((self.F.mod.tu, I.id, what))
    def call(self, eng, st, I, callee, args):
        n = ('c', I.id)
        def two(bad_val, ok_val, bad_what, mark=None):
            s2 = st.clone()
            s2.note((I.line, I.fn, bad_what))
            self.bad(s2, bad_what)
            return s2
        if callee in ("open", "open64"):
            self.ev(I, "open")
            s2 = two(0, 0, "open() fails")
            v = eng.sym(st, n, 32, ((0, INF),))
            st.ps[('fd', v)] = 'open'
            return [(s2, ('i', -1)), (st, v)]
        if callee in ("fopen", "fopen64"):
            self.ev(I, "open")
            s2 = two(0, 0, "fopen() fails")
            v = eng.sym(st, n, 64, ((1, INF),))
            return [(s2, NULL), (st, ('p', ('d', n), 0))]
        if callee in ("read", "__read_chk"):
            self.ev(I, "read")
            out = []
            k = ('fd', self.key(args[0]))
            if st.ps.get(k) == 'data':
                self.bad(st, "data that was read is not hashed")
                st.note((I.line, I.fn, "data of the previous read were not hashed"))
            s2 = two(0, 0, "read() fails")
            s2.ps[k] = 'failed'
            out.append((s2, ('i', -1)))
            s3 = st.clone()
            s3.ps[k] = 'end'
            s3.note((I.line, I.fn, "read() reaches the end"))
            out.append((s3, ('i', 0)))
            lo, hi = iv_hull(eng.rng(st, args[2]))
            v = eng.sym(st, n, 64, ((1, hi),))
            st.ps[k] = 'data'
            st.ps[('got', k)] = v
            st.ps.pop(('hashed',), None)
            out.append((st, v))
            return out
        if callee in ("fgets", "fgets_unlocked", "__fgets_chk"):
            f = self.key(args[2] if callee != "__fgets_chk" else args[3])
            self.ev(I, "line")
            s2 = st.clone()
            s2.note((I.line, I.fn, "fgets() returns NULL"))
            s2.ps[('pend', f)] = 1
            self.havoc(eng, st, args[0], I)
            return [(s2, NULL), (st, args[0])]
        if callee in ("fread", "fread_unlocked"):
            f = self.key(args[3])
            self.ev(I, "line")
            lo, hi = iv_hull(eng.rng(st, args[2]))
            if args[1] != ('i', 1) or args[2][0] != 'i':
                raise AnalysisError("fread() with variable size")
            s2 = st.clone()
            s2.note((I.line, I.fn, "fread() returns nothing"))
            s2.ps[('pend', f)] = 1
            s3 = st.clone()
            s3.note((I.line, I.fn, "fread() is short"))
            s3.ps[('pend', f)] = 1
            self.bad(s3, "the list of checksums ends in the middle of a line")
            self.havoc(eng, st, args[0], I)
            self.havoc(eng, s3, args[0], I)
            out = [(s2, ('i', 0)), (st, args[2])]
            if hi > 1:
                out.append((s3, eng.sym(s3, n, 64, ((1, hi - 1),))))
            return out
        if callee in ("getline", "__getdelim", "getdelim", "fscanf", "__isoc99_fscanf", "mmap", "pread", "readv"):
            raise AnalysisError("%s() is not modelled" % callee)
        if callee in ("fgetc", "getc", "_IO_getc"):
            f = self.key(args[0])
            s2 = st.clone()
            s2.note((I.line, I.fn, "fgetc() returns EOF"))
            s2.ps[('pend', f)] = 1
            return [(s2, ('i', -1)), (st, eng.sym(st, n, 32, ((0, 255),)))]
        if callee in ("feof", "feof_unlocked", "ferror", "ferror_unlocked"):
            f = self.key(args[0])
            eof = callee.startswith("feof")
            out = []
            pend = st.ps.get(('pend', f))
            yes, no = st.clone(), st
            yes.note((I.line, I.fn, "%s() is true" % callee))
            no.note((I.line, I.fn, "%s() is false" % callee))
            vy = eng.sym(yes, n, 32, ((1, INF),))
            if eof:
                # an end that was already reached; without a failed read before, the next one would have failed
                yes.ps.pop(('pend', f), None)
                yes.ps[('end', f)] = 1
                if pend:
                    self.bad(no, "reading the list fails")
                if st.ps.get(('end', f)) and pend is None and False:
                    return [(yes, vy)]
                out = [(yes, vy), (no, ('i', 0))]
            else:
                self.bad(yes, "reading the list fails")
                if pend:
                    no.ps.pop(('pend', f), None)
                    no.ps[('end', f)] = 1
                out = [(yes, vy), (no, ('i', 0))]
            return out
        if callee in ("getopt", "getopt_long", "__posix_getopt"):
            # options: each of the letters, or the end
            v = eng.sym(st, n, 32, ((-1, 255),))
            st.ps[('opt',)] = v
            return [(st, v)]
        if callee in ("strncmp", "strcmp", "memcmp", "CRYPTO_memcmp", "strcasecmp", "strncasecmp", "bcmp"):
            self.ev(I, "compare")
            whole = callee in ("strcmp", "strcasecmp")
            if not whole:
                whole = self.whole(args[2])
            a, b = eng.base_of(args[0]), eng.base_of(args[1])
            whole = whole and a is not None and b is not None and a[0] != b[0]
            eq = st.clone()
            eq.note((I.line, I.fn, "checksums agree"))
            if whole and (st.ps.get(('sum', a[0])) == 'fresh') != (st.ps.get(('sum', b[0])) == 'fresh'):
                eq.ps[('match',)] = 1
            else:
                self.bad(eq, "the checksums are not compared as a whole")
            st.note((I.line, I.fn, "checksums differ"))
            self.bad(st, "a checksum differs")
            return [(eq, ('i', 0)), (st, eng.sym(st, n, 32, ((-INF, -1), (1, INF))))]
        if callee in ("sprintf", "snprintf", "__sprintf_chk", "__snprintf_chk"):
            b = eng.base_of(args[0])
            if b is not None:
                st.ps[('sum', b[0])] = 'fresh'
                self.havoc(eng, st, args[0], I)
            return [(st, eng.sym(st, n, 32))]
        if callee in ("close",):
            st.ps.pop(('fd', self.key(args[0])), None) if st.ps.get(('fd', self.key(args[0]))) in ('end', 'failed') else None
            x = st.ps.get(('fd', self.key(args[0])))
            if x is not None:
                self.bad(st, "a file is closed before it was read to its end")
                st.ps.pop(('fd', self.key(args[0])))
            return [(st, ('i', 0))]
        if callee in ("exit", "_exit", "_Exit", "quick_exit"):
            self.finish(eng, st, I, args[0])
            return []
        if callee in ("abort", "err", "errx", "__assert_fail"):
            return []
        # whatever consumes what was read
        for k in [k for k in st.ps if k[0] == 'got']:
            v = st.ps[k]
            if any(strip(a) == strip(v) for a in args):
                st.ps[k[1]] = 'open'
                del st.ps[k]
        return None
    def whole(self, n):
        if n[0] == 'i':
            return n[1] >= 64
        f = lin(n)
        return f is not None and f[1] >= 0 and f[0] and all(c >= 2 for c in f[0].values())
    def havoc(self, eng, st, p, I):
        b = eng.base_of(p)
        if b is not None:
            eng.havoc_deep(st, b[0], ('c', I.id))
    def branch(self, eng, st, T, c, taken):
        o = st.ps.get(('opt',))
        if o is not None and eng.rng(st, o) == ((99, 99),):
            st.ps[('list',)] = 1
        return True
    def ret(self, eng, st, I, val):
        if val is not None:
            self.finish(eng, st, I, val)
    def finish(self, eng, st, I, val):
        self.stats["exits"].add((self.F.mod.tu, I.id))
        r = eng.rng(st, val)
        if val[0] in ('b', 'not', 'and', 'or'):
            if not eng.assume(st, val, False):
                return
        elif not any(l <= 0 <= h for l, h in r) and not all(l % 256 for l, h in r if l == h):
            return
        elif not any(l <= 0 <= h for l, h in r):
            return
        self.exits0 += 1
        why = None
        if st.ps.get(('bad',)):
            why = "although " + str(st.ps[('bad',)])
        elif any(k[0] == 'pend' for k in st.ps):
            why = "without finding out whether a list ended or could not be read"
        elif any(k[0] == 'fd' and v not in ('end',) for k, v in st.ps.items()):
            why = "although a file was not read to its end"
        elif st.ps.get(('list',)):
            if not st.ps.get(('match',)):
                why = "in check mode although no file was compared"
            elif not any(k[0] == 'end' for k in st.ps):
                why = "in check mode before the list was read to its end"
        if why:
            key = "%s/%s" % (self.F.mod.tu, why)
            if key not in self.reports:
                self.reports[key] = Report("exit-status", key, I.where(), "exit status zero " + why, fmt_path(st.path(16)))

def c19(tier="quick"):
    R = Result()
    ev, ex, z = set(), set(), 0
    n = 0
    for t in front.TOOLS:
        P = Program([t], mode="whole")
        F = P.fn.get("main")
        if F is None:
            raise AnalysisError("%s has no main function" % t)
        n += 1
        ck, e = attempt(P, F, ExitCheck)
        R.reports += sorted(ck.reports.values(), key=lambda r: r.key)
        ev |= ck.stats["events"]
        ex |= ck.stats["exits"]
        z += ck.exits0
    R.floor("programs", n, 2)
    R.floor("failing or deciding calls (open, read, lines, comparisons)", len(ev), 10)
    R.floor("places where the programs exit", len(ex), 10)
    R.floor("ways to exit status zero", z, 6)
    R.coverage["explanation"] = ("The programs are inlined into main(); every open, read, line read, end-of-file test and comparison "
        "forks into its outcomes, and no path on which one of them failed, on which a file or list was not read to its end, "
        "or, in check mode, on which nothing was compared, may reach an exit whose status can be zero.")
    R.assumptions += ["Counters of errors do not overflow.", "All calls of the programs outside the C library compute and do not fail."]
    return R
