"""Decoded strings are read only after their length was checked (C05)."""
from engine import Checker, Engine, NULL, INF, iv_hull, mentions
from api import API
from common import Report, fmt_path, run_all
from check import Result
import conv as CV, roles, tables
from flow import attempt, run, SHARED
from c03 import FALL
from auth import strip

# bytes an external function reads from a pointer argument: argument -> (number | ('arg', position))
READS = {"BN_bin2bn": {0: ('arg', 1)}, "BN_lebin2bn": {0: ('arg', 1)}, "BN_native2bn": {0: ('arg', 1)},
         "CRYPTO_memcmp": {0: ('arg', 2), 1: ('arg', 2)}, "memcmp": {0: ('arg', 2), 1: ('arg', 2)},
         "EVP_DigestUpdate": {1: ('arg', 2)}, "EVP_DigestSignUpdate": {1: ('arg', 2)}, "EVP_CipherUpdate": {3: ('arg', 4)},
         "EVP_EncryptUpdate": {3: ('arg', 4)}, "EVP_DecryptUpdate": {3: ('arg', 4)}, "EVP_Cipher": {2: ('arg', 3)},
         "BUF_reverse": {1: ('arg', 2)}, "ASN1_STRING_set": {1: ('arg', 2)}, "ASN1_OCTET_STRING_set": {1: ('arg', 2)},
         "OPENSSL_memdup": {0: ('arg', 1)}, "CRYPTO_memdup": {0: ('arg', 1)}, "memchr": {0: ('arg', 2)},
         "EVP_PKEY_new_mac_key": {2: ('arg', 3)}, "EVP_DigestSign": {3: ('arg', 4)}, "HMAC_Update": {1: ('arg', 2)},
         "CMAC_Update": {1: ('arg', 2)}, "CMAC_Init": {1: ('arg', 2)}, "HMAC_Init_ex": {1: ('arg', 2)},
         "EVP_PKEY_CTX_ctrl": {5: ('arg', 4)}, "BUF_memdup": {0: ('arg', 1)}}

def sname(g):
    return g.j.get("st", "").lstrip("%").replace("struct.", "").split(".")[0]

class SizedCheck(Checker):
    weak = True
    CTX = {}                      # function -> argument constants of its call sites
    NEEDS = {}                    # function -> {argument: bytes read from it}
    PAIRS = {}                    # function -> {pointer argument: argument with its length}
    def __init__(self, prog, F, consts=()):
        super().__init__()
        self.prog, self.F, self.consts = prog, F, consts
        self.pairs = self.PAIRS.get(F.name, {})
        self.found = set()
        self.strs = set()
        self.need = {}
        self.stats = {"reads": set(), "strings": set()}
    def prune(self, eng, st, bases, b):
        for k in [k for k in st.ps if isinstance(k, tuple) and k[0] != 'init' and k not in bases]:
            del st.ps[k]
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        return CV.RANGES[CV.conv(self.prog, callee).split(":")[0]]
    def start(self, eng, st):
        for i, v in enumerate(self.consts):
            if v is not None:
                st.con[('arg', i)] = ((v, v),)
    # -- which pointers are string contents
    def load(self, eng, st, I, ptr, size):
        a = I.j["a"][0]
        g = self.F.ins.get(a.get("i")) if a["k"] == "v" else None
        b = eng.base_of(ptr)
        if b is None:
            return
        if g is not None and g.op == "getelementptr" and not g.j["vo"] and sname(g) == "asn1_string_st":
            if isinstance(b[1], int):
                self.strs.add((b[0], b[1] - g.j["o"]))
        self.read(eng, st, I, ptr, ('i', size), "a load")
    def string_of(self, S):
        """(kind, string) when the symbol S is the contents of an ASN.1 string"""
        if S[0] == 'arg' and len(S) == 2 and S[1] in self.pairs:
            return ('pair', self.pairs[S[1]])
        if S[0] == 'o' and isinstance(S[1], tuple):
            return None
        if S[0] == 'get' and S[1] in ("ASN1_STRING_get0_data", "ASN1_STRING_data"):
            return S[2]
        if S[0] == 'm' and isinstance(S[2], int) and S[3] == 8 and (S[1], S[2] - 8) in self.strs:
            return ('p', S[1], S[2] - 8)
        return None
    def lengths(self, eng, st, s):
        """values known to be the length of the string"""
        if s[0] == 'pair':
            return [('s', ('arg', s[1]))]
        out = [('s', ('get', 'ASN1_STRING_length', s)), ('s', ('get', 'ASN1_STRING_get_length', s))]
        if s[0] == 'p' and isinstance(s[2], int):
            c = st.mem.get((s[1], s[2]))
            if c is not None:
                out.append(c[1])
            out += [('s', k) for k in st.con if isinstance(k, tuple) and k[0] == 'm' and k[1] == s[1] and k[2] == s[2] and k[3] == 4]
        return out
    def read(self, eng, st, I, ptr, n, what):
        b = eng.base_of(ptr)
        if b is None or b[0][0] != 'd':
            return
        S = b[0][1]
        nl, nh = iv_hull(eng.rng(st, n))
        off = b[1]
        ol, oh = (off, off) if isinstance(off, int) else iv_hull(eng.rng(st, off))
        if nh <= 0:
            return
        if S[0] == 'arg' and len(S) == 2 and S[1] not in self.pairs:
            if oh < 1 << 20 and n[0] == 'i':
                e = oh + nh
                # a guarded read (a length argument was tested) is the caller's and callee's agreement
                if not self.guarded(eng, st):
                    self.need[S[1]] = max(self.need.get(S[1], 0), e)
            return
        s = self.string_of(S)
        if s is None:
            return
        self.stats["reads"].add((self.F.name, I.id))
        self.stats["strings"].add((self.F.name, str(s)[:80]))
        lens = self.lengths(eng, st, s)
        known = max([eng.rng(st, l)[0][0] for l in lens if eng.rng(st, l)] + [0])
        for k, v in st.con.items():
            # a length that is positive and a multiple of K is at least K
            if k[0] == 'op' and k[1] in ('srem', 'urem') and v == ((0, 0),) and k[3][0] == 'i' and strip(k[2]) in [strip(l) for l in lens] and known > 0:
                known = max(known, k[3][1])
        if ol >= 0 and oh + nh <= known:
            return
        rv = ('i', off) if isinstance(off, int) else off
        if off is not None:
            start = self.start_of(eng, st, rv)
            if start is not None:
                rv = start                # moves down from there to a tested end
            form = lin_add(lin(rv), lin(n))
            for l in lens:
                if form is not None and (ol >= 0 or start is not None) and fits(form, strip(l)):
                    return
                if ol >= 0 and oh <= 0 and self.le(eng, st, n, l):
                    return
        key = "%s/%s/%s" % (self.F.name, I.fn, what)
        if key not in self.reports:
            self.reports[key] = Report("unchecked-length", key, I.where(),
                "%s reads %s byte(s) at offset %s of a decoded string of which only %d byte(s) are known to exist" %
                (what, nh if nh < 1 << 40 else "an unbounded number of", oh if oh < 1 << 40 else "?", known), fmt_path(st.path(14)))
    def block(self, eng, st, b):
        # where a position that a loop carries starts
        if b in self.F.headers:
            for I in self.F.blocks[b]:
                if I.op != "phi":
                    break
                v = st.env.get(I.id)
                if v is not None and v[0] == 'p' and not mentions(v[2] if isinstance(v[2], tuple) else (), ('phio', I.id)) and self.descends(I):
                    st.ps[('init', I.id)] = ('init', v[1], ('i', v[2]) if isinstance(v[2], int) else v[2])
    def descends(self, I):
        """every way round the loop moves the position down"""
        for src, v in I.j["in"].items():
            if (src, self.block_of(I)) in self.F.back:
                J = self.F.ins.get(v[1]) if v[0] == 'v' else None
                if J is None or J.op != "getelementptr" or J.j["b"] != ('v', I.id):
                    return False
                if J.j["o"] > 0:
                    return False
                for x, sc in J.j["vo"]:
                    K = self.F.ins.get(x[1]) if x[0] == 'v' else None
                    if K is None or K.op != "sub" or K.args[0] != ('i', 0) or sc < 0:
                        return False
        return True
    def block_of(self, I):
        for b in self.F.order:
            if any(J is I for J in self.F.blocks[b]):
                return b
    def start_of(self, eng, st, off):
        x = off[1] if off[0] == 's' else None
        if x and x[0] == 'phio':
            r = st.ps.get(('init', x[1]))
            if r is not None:
                return r[2]
        return None
    def guarded(self, eng, st):
        return False
    def le(self, eng, st, a, b):
        """a <= b was tested"""
        a, b = strip(a), strip(b)
        for k, v in st.con.items():
            if k[0] in ('rel', 'urel') and len(k) == 4:
                if strip(k[1]) == a and strip(k[2]) == b and k[3] == 0 and '>' not in v:
                    return True
                if strip(k[1]) == b and strip(k[2]) == a and k[3] == 0 and '<' not in v:
                    return True
        return False
    def access(self, eng, st, I, ptr, size, kind, what):
        if kind == "r" or "memcpy" not in what:
            self.read(eng, st, I, ptr, size, what.split(".")[1] if "." in what else what) if kind == "r" else None
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None or ok is False:
            return
        for i, n in READS.get(callee, {}).items():
            if i < len(args) and n[1] < len(args):
                self.read(eng, st, I, args[i], args[n[1]], callee)
        if callee in self.prog.fn:
            # data and its length handed on together
            for i, a in enumerate(args):
                b = eng.base_of(a)
                s = self.string_of(b[0][1]) if b is not None and b[0][0] == 'd' and b[1] == 0 else None
                if s is not None:
                    ls = [strip(l) for l in self.lengths(eng, st, s)]
                    js = [j for j, x in enumerate(args) if strip(x) in ls]
                    if js:
                        self.found.add((callee, i, js[0]))
        if callee in self.NEEDS:
            for i, n in self.NEEDS[callee].items():
                if i < len(args) and args[i] != NULL and i not in self.PAIRS.get(callee, {}):
                    self.read(eng, st, I, args[i], ('i', n), callee)

def lin(v):
    """(atoms -> coefficient, constant)"""
    v = strip(v)
    if v[0] == 'i':
        return {}, v[1]
    if v[0] == '+':
        r = lin(('s', v[1]))
        return r and (r[0], r[1] + v[2])
    if v[0] == 's':
        n = v[1]
        if n[0] == 'op' and n[1] == 'mul':
            for x, y in ((n[2], n[3]), (n[3], n[2])):
                if y[0] == 'i':
                    r = lin(x)
                    return r and ({k: c * y[1] for k, c in r[0].items()}, r[1] * y[1])
        if n[0] == 'op' and n[1] == 'shl' and n[3][0] == 'i':
            r = lin(n[2])
            return r and ({k: c << n[3][1] for k, c in r[0].items()}, r[1] << n[3][1])
        if n[0] == 'op' and n[1] in ('add', 'sub'):
            r, q = lin(n[2]), lin(n[3])
            if r is None or q is None:
                return None
            return lin_add(r, q if n[1] == 'add' else ({k: -c for k, c in q[0].items()}, -q[1]))
        return {v: 1}, 0
    return None

def lin_add(a, b):
    if a is None or b is None:
        return None
    d = dict(a[0])
    for k, c in b[0].items():
        d[k] = d.get(k, 0) + c
    return {k: c for k, c in d.items() if c}, a[1] + b[1]

def fits(form, l):
    """form <= l for every non-negative l"""
    d, c = form
    if c > 0 or len(d) != 1:
        return False
    (a, k), = d.items()
    if a == l:
        return k == 1
    n = a[1]
    if n[0] == 'op' and n[1] in ('sdiv', 'udiv') and strip(n[2]) == l and n[3][0] == 'i' and 0 < k <= n[3][1]:
        return True
    if n[0] == 'op' and n[1] in ('lshr', 'ashr') and strip(n[2]) == l and n[3][0] == 'i' and 0 < k <= 1 << n[3][1]:
        return True
    return False

def contexts(P, F):
    """constant arguments at the call sites of a function that is only called directly"""
    out = set()
    if F.name in taken(P):
        return [()]
    for G in P.roots():
        for b in G.order:
            for I in G.blocks[b]:
                if I.op == "call" and I.callee == F.name:
                    out.add(tuple(a.get("v") if a["k"] == "c" else None for a in I.j["a"]))
    return sorted(out, key=str) if out and len(out) < 8 else [()]

_taken = {}
def taken(P):
    """functions whose address is stored somewhere"""
    if P not in _taken:
        _taken[P] = set(roles.roles(P))
    return _taken[P]

def string_users(P):
    """functions that touch contents of ASN.1 strings"""
    out = []
    for F in P.roots():
        for b in F.order:
            for I in F.blocks[b]:
                if (I.op == "getelementptr" and I.j.get("st", "").find("asn1_string_st") >= 0) or \
                        (I.op == "call" and I.callee in ("ASN1_STRING_get0_data", "ASN1_STRING_data")):
                    out.append(F)
                    break
            else:
                continue
            break
    return out

# arguments of entry points that carry untrusted bytes: pointer argument -> length argument
ROLE_PAIRS = {"pmeth.verify": {1: 2, 3: 4}, "pmeth.sign": {3: 4}, "pmeth.decrypt": {3: 4}, "pmeth.encrypt": {3: 4},
              "pmeth.ctrl": {3: 2}, "cipher.ctrl": {3: 2}, "prov.mac.init": {1: 2},
              "prov.cipher.encrypt_init": {1: 2, 3: 4}, "prov.cipher.decrypt_init": {1: 2, 3: 4}}
# commands whose pointer argument is a byte string of the given length (set MAC key, set IV; set tag)
COMMANDS = {"pmeth.ctrl": (6, 8), "cipher.ctrl": (0x11,)}

def c05(tier="quick"):
    P = tables.program()
    rl = roles.roles(P)
    users = string_users(P)
    # what the functions they call read unconditionally from pointer arguments
    called = set()
    for F in users:
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call" and I.callee in P.fn:
                    called.add(I.callee)
    R = Result()
    subs = [P.fn[n] for n in sorted(called) if any(a[2] == 'ptr' for a in P.fn[n].args)]
    def first(P, F):
        ck, e = attempt(P, F, SizedCheck)
        ck.stats["need"] = {(F.name, i, n) for i, n in ck.need.items()}
        ck.reports = {}
        return ck, e
    _, st0, err0, _ = run_all(P, first, subs)
    SizedCheck.NEEDS = {}
    for n, i, k in st0.get("need", ()):
        if "char" in P.fn[n].argt[i] or "void" in P.fn[n].argt[i]:
            SizedCheck.NEEDS.setdefault(n, {})[i] = k
    SizedCheck.PAIRS = {}
    todo = {F.name for F in users}
    for n, rs in rl.items():
        for r in rs:
            if r in ROLE_PAIRS and n in P.fn:
                SizedCheck.PAIRS.setdefault(n, {}).update(ROLE_PAIRS[r])
                todo.add(n)
    def each(P, F):
        tot, e, steps = None, None, 0
        cs = contexts(P, F)
        for r in rl.get(F.name, ()):
            if r in COMMANDS:
                cs = [(None, k) for k in COMMANDS[r]]
        for c in cs:
            ck, e = attempt(P, F, lambda P, F: SizedCheck(P, F, c))
            ck.stats["found"] = ck.found
            if tot is None:
                tot = ck
            else:
                tot.reports.update(ck.reports)
                for k, v in ck.stats.items():
                    tot.stats[k] |= v
        return tot, e
    reps, st, err = {}, {}, []
    for rnd in range(6):
        reps_, st_, err_, slow = run_all(P, each, [P.fn[n] for n in sorted(todo)])
        err = [e for e in err if e.split(" ")[0] not in todo] + err_
        reps = {k: r for k, r in reps.items() if k.split("/")[0] not in todo}
        for r in reps_:
            reps[r.key] = r
        for k, v in st_.items():
            if isinstance(v, set):
                st.setdefault(k, set()).update(v)
        todo = set()
        for n, i, j in sorted(st_.get("found", ())):
            if SizedCheck.PAIRS.setdefault(n, {}).get(i) is None:
                SizedCheck.PAIRS[n][i] = j
                todo.add(n)
        if not todo:
            break
    R.reports += [reps[k] for k in sorted(reps)]
    R.undecided += err
    R.floor("functions that use contents of decoded strings", len(users), 5)
    R.floor("reads of contents", len(st.get("reads", ())), 10)
    R.coverage["what called functions read"] = {k: {str(i): n for i, n in v.items()} for k, v in SizedCheck.NEEDS.items()}
    R.coverage["data passed with its length"] = {k: {str(i): j for i, j in v.items()} for k, v in SizedCheck.PAIRS.items()}
    R.coverage["explanation"] = ("Bytes of decoded ASN.1 strings and of byte strings that entry points receive together with "
        "their length: every load, copy and call that reads them (also inside the functions they are passed on to) must "
        "lie below a length established on the path: by a comparison, by arithmetic on the length itself, or because the "
        "length is what limits the call.")
    R.assumptions += SHARED
    return R
