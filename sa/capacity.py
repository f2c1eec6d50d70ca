"""Output stays within the capacity the caller announced (C06)."""
from engine import Checker, Engine, NULL, INF, iv_hull, mentions
from front import AnalysisError
from api import API
from common import Report, fmt_path, run_all
from check import Result
import conv as CV, roles, tables
from flow import attempt, SHARED
from c03 import FALL
from auth import strip
from sized import lin, lin_add

# role -> (argument with the buffer, capacity: ('in', argument pointing to it) or argument, null buffer asks for the size)
ROLES = {"pmeth.sign": (1, ('in', 2), True), "pmeth.signctx": (1, ('in', 2), True), "pmeth.derive": (1, ('in', 2), True),
         "pmeth.encrypt": (1, ('in', 2), True), "pmeth.decrypt": (1, ('in', 2), True),
         "prov.mac.final": (1, 3, True), "prov.cipher.update": (1, 3, False), "prov.cipher.final": (1, 3, False),
         "prov.digest.final": (1, 3, False)}
XOF_LEN = 3
HASH64 = 983                       # the 512-bit hash

def is_len(v, *words):
    v = strip(v)
    return v[0] == 's' and v[1][0] == 'get' and any(v[1][1].endswith(w) for w in words)

def mdsize(st, X):
    return ('s', ('get', 'EVP_MD_get_size', X))

# what external functions store through a pointer argument: (argument) -> bytes, from the arguments of the call
def w_arg(i):
    return lambda ck, eng, st, a: [lin(a[i])]

class CapCheck(Checker):
    """every write through one pointer argument is covered by the capacity.
    spec: (buffer argument, capacity, null asks for the size), or None as capacity: collect what is written"""
    exact_offsets = True
    EXT = {}                       # function -> {argument: [forms over its arguments]}
    def __init__(self, prog, F, spec):
        super().__init__()
        self.prog, self.F = prog, F
        self.out, self.cap, self.query = spec
        self.forms = []
        self.stats = {"writes": set(), "calls": set()}
    def prune(self, eng, st, bases, b): pass
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        return CV.RANGES[CV.conv(self.prog, callee).split(":")[0]]
    def start(self, eng, st):
        if isinstance(self.cap, tuple):
            c = eng.read(st, ('d', ('arg', self.cap[1])), 0, 8, None)
        elif self.cap is not None:
            c = ('s', ('arg', self.cap))
        else:
            return
        st.ps['cap'] = ('cap', c)
        self.pins = (c[1],)
    # -- writes
    def mine(self, eng, ptr):
        b = eng.base_of(ptr)
        return b is not None and b[0] == ('d', ('arg', self.out))
    def null(self, eng, st):
        return eng.rng(st, ('s', ('arg', self.out))) == ((0, 0),)
    def maybe_null(self, eng, st):
        return any(l <= 0 <= h for l, h in eng.rng(st, ('s', ('arg', self.out))))
    def written(self, eng, st, I, ptr, forms, what):
        """forms: possible numbers of bytes written at ptr (all must fit)"""
        if self.null(eng, st):
            return
        b = eng.base_of(ptr)
        st.ps['wrote'] = ('wrote',)
        self.stats["writes"].add((self.F.name, I.id, what))
        off = lin(('i', b[1]) if isinstance(b[1], int) else b[1]) if b[1] is not None else None
        for f in forms:
            if f is not None and f[0] == 'hash':
                self.forms.append(f if off == ({}, 0) else None)
                continue
            f = lin_add(off, f)
            if self.cap is None:
                self.forms.append(self.bound(eng, st, f))
                continue
            if self.query and self.maybe_null(eng, st):
                self.rep(I, st, "null-output", "%s writes to the output although no buffer may have been given" % what)
            if f is None or not self.fits(eng, st, f):
                self.rep(I, st, "capacity", "%s writes %s byte(s) to the output without the announced capacity having been "
                         "found sufficient" % (what, show(f)))
    def rep(self, I, st, rule, text):
        key = "%s/%s/%s" % (self.F.name, I.fn, rule)
        if key not in self.reports:
            self.reports[key] = Report(rule, key, I.where(), text, fmt_path(st.path(14)))
    def bound(self, eng, st, f):
        """form over the arguments of this function"""
        if f is None:
            return None
        d, c = {}, f[1]
        for a, k in f[0].items():
            if a[0] == 's' and a[1][0] == 'arg' and len(a[1]) == 2:
                d[a] = k
            elif k > 0:
                h = iv_hull(eng.rng(st, a))[1]
                if h >= 1 << 31:
                    return None
                c += k * h
            else:
                return None
        return d, c
    def top(self, eng, st, f):
        t = f[1]
        for a, k in f[0].items():
            l, h = iv_hull(eng.rng(st, a))
            t += k * (h if k > 0 else l)
        return t
    def fits(self, eng, st, f):
        cap = st.ps['cap'][1]
        t = self.top(eng, st, f)
        lo = min([max(l, 0) for l, h in eng.rng(st, cap) if h >= 0] or [1 << 62])   # unsigned
        if t <= 0 or t <= lo:
            return True
        if t >= 1 << 62:
            if len(f[0]) > 1 or f[1]:
                return False             # the sum could wrap
        cs = strip(cap)
        eqs = [f]
        for k, v in st.con.items():
            # other names of a size
            if k[0] in ('rel', 'urel') and len(k) == 4 and v == frozenset('='):
                a, b = strip(k[1]), strip(k[2])
                for x, y, s in ((a, b, 1), (b, a, -1)):
                    if x in f[0] and f[0][x] == 1:
                        g = {z: c for z, c in f[0].items() if z != x}
                        eqs.append(lin_add((g, f[1]), lin_add(lin(y), ({}, s * k[3]))))
        for k, v in st.con.items():
            if k[0] not in ('rel', 'urel') or len(k) != 4:
                continue
            for x, y, bad, s in ((k[1], k[2], '<', 1), (k[2], k[1], '>', -1)):
                if strip(x) == cs and bad not in v:
                    # x - y vs s*k[3]:   cap >= y + s*c (+1 when strict)
                    g = lin_add(lin(y), ({}, s * k[3] + (1 if '=' not in v else 0)))
                    if g is None:
                        continue
                    if k[0] == 'rel' and self.low(eng, st, g) < 0:
                        pass
                    for e in eqs:
                        if e is None:
                            continue
                        diff = lin_add(e, ({a: -c for a, c in g[0].items()}, -g[1]))
                        if diff is not None and self.top(eng, st, diff) <= 0:
                            return True
        return False
    def low(self, eng, st, f):
        return self.top(eng, st, ({a: -c for a, c in f[0].items()}, -f[1])) * -1
    def store(self, eng, st, I, ptr, val, size):
        if self.mine(eng, ptr):
            self.written(eng, st, I, ptr, [({}, size)], "a store")
        b = eng.base_of(ptr)
        if b is not None:
            self.changed(st, b[0])
    def access(self, eng, st, I, ptr, size, kind, what):
        if kind == "w" and self.mine(eng, ptr):
            self.written(eng, st, I, ptr, [lin(size)], what.split(".")[1] if "." in what else what)
    def changed(self, st, base):
        for k in [k for k in st.ps if isinstance(k, tuple) and k[0] == 'len' and k[2][0] == 'p' and k[2][1] == base]:
            del st.ps[k]
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None or ok is False or callee.startswith("llvm."):
            if callee is None and any(self.mine(eng, a) for a in args) and self.cap is not None:
                raise AnalysisError("%s: indirect call receives the output" % I.where())
            return
        if callee.startswith("i2d_") and len(args) > 1:
            if args[1] == NULL:
                if val is not None:
                    st.ps[('len', callee, args[0])] = ('len', val)
            else:
                b = eng.base_of(args[1])
                cell = st.ps.get(('cell', I.id))
                if cell is not None and self.mine(eng, cell[1]):
                    n = st.ps.get(('len', callee, args[0]))
                    self.written(eng, st, I, cell[1], [lin(n[1]) if n else None], callee)
        elif any(k[0] == 'len' for k in st.ps if isinstance(k, tuple)):
            if "_set" in callee or callee.startswith("ASN1_"):
                for k in [k for k in st.ps if isinstance(k, tuple) and k[0] == 'len']:
                    del st.ps[k]
            for a in args:
                if a[0] == 'p':
                    self.changed(st, a[1])
        if callee.startswith("EVP_MD_CTX_ctrl") and ok is not False and len(args) > 2 and args[1] == ('i', XOF_LEN):
            st.ps[('xof', args[0])] = ('xof', args[2])
        if callee in ("OBJ_nid2sn", "OBJ_nid2ln"):
            b = eng.base_of(val)
            if b is not None:
                st.ps[('sn', b[0])] = ('sn', args[0])
        if callee.startswith("EVP_DigestInit") and len(args) > 1:
            b = eng.base_of(args[1])
            x = b and b[0][1] if b and b[0][0] == 'd' else None
            if x and x[0] == 'get' and x[1] == "EVP_get_digestbyname":
                b = eng.base_of(x[2])
                n = b and st.ps.get(('sn', b[0]))
                if n:
                    st.ps[('md', args[0])] = ('md', n[1])
        for i, a in enumerate(args):
            if self.mine(eng, a):
                f = self.writes(eng, st, I, callee, i, args)
                if f:
                    self.written(eng, st, I, a, f, callee)
    def call(self, eng, st, I, callee, args):
        if callee and callee.startswith("i2d_") and len(args) > 1 and args[1][0] == 'p' and isinstance(args[1][2], int):
            c = st.mem.get((args[1][1], args[1][2]))
            if c is not None:
                st.ps[('cell', I.id)] = ('cell', c[1])
        return None
    def hash(self, eng, st, nid):
        """form for the size of the hash with this number"""
        if self.cap is None and nid[0] == 's' and nid[1][0] == 'arg':
            return ('hash', nid[1][1])
        return ({}, 64 if any(l <= HASH64 <= h for l, h in eng.rng(st, nid)) else 32)
    def sizes(self, st, *words):
        """sizes asked for on this path"""
        out = set()
        for k in st.con:
            for x in walk(k):
                if x[0] == 'get' and any(x[1].endswith(w) for w in words):
                    out.add(x)
        return sorted(out, key=str)
    def writes(self, eng, st, I, callee, i, args):
        """possible numbers of bytes the call stores through argument i; [None]: not known; []: none"""
        A = API.get(callee)
        if callee.startswith("EVP_DigestFinal") and i == 1:
            x = st.ps.get(('xof', args[0]))
            if x is not None:
                return [lin(x[1])]
            x = st.ps.get(('md', args[0]))
            if x is not None:
                return [self.hash(eng, st, x[1])]
            ss = self.sizes(st, "MD_get_size", "MD_CTX_get0_size", "MD_size", "MD_CTX_size")
            return [({('s', s): 1}, 0) for s in ss[:1]] or [({}, 64)]
        if callee in ("EVP_CipherUpdate", "EVP_EncryptUpdate", "EVP_DecryptUpdate") and i == 1:
            n = lin(args[4])
            for s in self.sizes(st, "block_size"):
                if eng.rng(st, ('s', s)) == ((1, 1),):
                    return [n]
                return [lin_add(n, ({('s', s): 1}, 0))]
            return [lin_add(n, ({}, 32))]
        if callee in ("EVP_CipherFinal", "EVP_CipherFinal_ex", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex", "EVP_EncryptFinal",
                      "EVP_DecryptFinal") and i == 1:
            for s in self.sizes(st, "block_size"):
                if eng.rng(st, ('s', s)) == ((1, 1),):
                    return []
                return [({('s', s): 1}, 0)]
            return [({}, 32)]
        if callee == "BN_bn2bin":
            return [({strip(b): 1}, 0) for b in byte_counts(eng, st, args[0])] or [None]
        if callee in CONTRACTS:
            f = CONTRACTS[callee].get(i)
            return [lin(args[f])] if isinstance(f, int) else []
        if callee in EXTERNAL:
            f = EXTERNAL[callee].get(i)
            return [lin(args[f])] if isinstance(f, int) else []
        if callee in self.prog.fn:
            G = self.prog.fn[callee]
            if G.argt[i].startswith("const "):
                return []
            e = self.EXT.get(callee, {}).get(i)
            if e is None:
                self.stats["calls"].add((callee, i))
                return [None] if self.cap is not None else []
            out = []
            for f in e:
                if f is not None and f[0] == "hash":
                    out.append(self.hash(eng, st, args[f[1]]))
                elif f is None:
                    out.append(None)
                else:
                    r = ({}, f[1])
                    for a, k in f[0]:
                        r = lin_add(r, lin_scale(lin(args[a[1][1]]), k))
                    out.append(r)
            return out
        if A is not None:
            return [None] if i in A.out else []
        return [None]
    def ret(self, eng, st, I, val):
        if self.cap is None or not self.query or val is None:
            return
        if not any(h > 0 for l, h in eng.rng(st, val)):
            return
        if not self.null(eng, st) and 'wrote' not in st.ps:
            self.rep(I, st, "no-output", "success although nothing was written to the buffer that was given")

def byte_counts(eng, st, bn):
    """values that are the number of bytes of a number"""
    out = []
    for k in list(st.con) + list(st.env.values()):
        for x in walk(k):
            if x[0] == 'op' and x[1] in ('sdiv', 'udiv') and x[3] == ('i', 8) and strip(x[2]) == ('+', ('get', 'BN_num_bits', bn), 7):
                out.append(('s', x))
    return out[:1]

# functions whose loops are outside what the analysis bounds: buffer argument -> argument with the number of bytes
CONTRACTS = {"gost_kdftree2012_256": {0: 1}}

def lin_scale(f, k):
    return f and ({a: c * k for a, c in f[0].items()}, f[1] * k)

def walk(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from walk(y)

def show(f):
    if f is None:
        return "an unknown number of"
    if not f[0]:
        return str(f[1])
    return "a computed number of"

# external functions: buffer argument -> argument with the number of bytes (None: does not write)
EXTERNAL = {"RAND_bytes": {0: 1}, "BN_bn2binpad": {1: 2}, "BN_bn2lebinpad": {1: 2}, "OPENSSL_cleanse": {0: 1},
            "BUF_reverse": {0: 2}, "EVP_PKEY_CTX_ctrl": {}, "memcpy": {0: 2}, "HMAC_Final": {}}

def c06(tier="quick"):
    P = tables.program()
    rl = roles.roles(P)
    work = {}
    for n, rs in rl.items():
        for r in rs:
            if r in ROLES and n in P.fn:
                work[n] = ROLES[r]
    R = Result()
    # what the functions of other files write through the pointers they are given, bottom up
    CapCheck.EXT = {}
    def each(P, F):
        return attempt(P, F, lambda P, F: CapCheck(P, F, work[F.name]))
    def ext(P, F):
        tot, e = None, None
        for n, i in sorted(need):
            if n == F.name:
                ck, e = attempt(P, F, lambda P, F: CapCheck(P, F, (i, None, False)))
                ck.stats["forms"] = {(n, i, freeze(f)) for f in ck.forms}
                if tot is None:
                    tot = ck
                else:
                    for k in ("calls", "forms"):
                        tot.stats[k] |= ck.stats[k]
        return tot, e
    need, reps = set(), []
    err2 = []
    for rnd in range(8):
        reps, st, err, slow = run_all(P, each, [P.fn[n] for n in sorted(work)])
        more = set(st.get("calls", ()))
        for k in range(8):
            old = {n: {i: set(f) for i, f in v.items()} for n, v in CapCheck.EXT.items()}
            before = set(need)
            need |= more
            if not need:
                break
            _, s2, err2, _ = run_all(P, ext, [P.fn[n] for n in sorted({n for n, i in need})])
            CapCheck.EXT = {}
            for n, i in need:
                CapCheck.EXT.setdefault(n, {}).setdefault(i, set())
            for n, i, f in s2.get("forms", ()):
                CapCheck.EXT[n][i].add(f)
            more = set(s2.get("calls", ()))
            if CapCheck.EXT == old and not more - need:
                break
        if rnd and not set(st.get("calls", ())) - before:
            break
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err + err2
    R.floor("operations with a capacity", len(work), 9)
    R.floor("writes to the output", len(st.get("writes", ())), 12)
    R.coverage["operations"] = {n: "buffer argument %d, capacity %s" % (s[0], "behind argument %d" % s[1][1] if isinstance(s[1], tuple)
                                else "argument %d" % s[1]) for n, s in sorted(work.items())}
    R.coverage["what called functions write"] = {"%s argument %d" % (n, i): sorted(map(str, f))
                                                 for n, v in sorted(CapCheck.EXT.items()) for i, f in sorted(v.items())}
    R.coverage["explanation"] = ("Every store, copy and call that writes through the output argument of the operations that "
        "announce a capacity, on every path: the number of bytes (a constant, a digest or block size, a length that was "
        "asked for, or what the called function writes, summarised from its own code) must be bounded by the capacity through a "
        "test on the path, the buffer must be known to be present, and success with a buffer requires a write.")
    R.assumptions += SHARED + ["gost_kdftree2012_256 writes the number of bytes it is asked for (its loop runs a "
                               "multiple of the hash size).", "i2d functions write what they returned for a null buffer."]
    return R

def freeze(f):
    return f if f is None or f[0] == 'hash' else (tuple(sorted(f[0].items(), key=str)), f[1])
