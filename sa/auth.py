"""Nothing is released before it was authenticated: key unwrapping (C04) and authenticated decryption (C18)."""
from engine import Checker, Engine, NULL
from api import API
from common import Report, fmt_path
from check import Result
import conv as CV, roles, tables
from flow import attempt, SHARED
from c03 import FALL

AEAD, WITH_MAC = 0x200000, 0x2000000
WRAP = 0x10002
ENC = 'EVP_CIPHER_CTX_is_encrypting'

def strip(v):
    """a value without width conversions"""
    while v[0] == 's' and v[1][0] in ('t', 'z'):
        v = v[1][-1]
    return v

class MacTrack(Checker):
    weak = False
    def __init__(self, prog, F):
        super().__init__()
        self.prog, self.F = prog, F
        self.stats = {}
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        return CV.RANGES[CV.conv(self.prog, callee).split(":")[0]]
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None:
            return
        if callee == ENC and args[0] == ('p', ('d', ('arg', 0)), 0):
            st.ps["enc"] = ('enc', val)
        if callee == "CRYPTO_memcmp":
            st.ps[('eqv', I.id)] = ('eqv', val, args[0], args[1], args[2])
        if ok is False:
            return
        mac = None
        if callee == "EVP_DigestFinalXOF":
            mac = (args[1], args[2])
        elif callee in ("EVP_DigestSignFinal", "EVP_DigestFinal_ex", "EVP_DigestFinal", "CMAC_Final", "HMAC_Final"):
            n = args[2]
            ln = ('?',)
            if n[0] == 'p' and isinstance(n[2], int):
                c = st.mem.get((n[1], n[2]))
                if c is None:
                    nm = ('m', n[1], n[2], 8, st.objs.get(n[1]))
                    ln = ('cell', n)
                else:
                    ln = c[1]
            mac = (args[1], ln)
        else:
            F = self.prog.fn.get(callee)
            if F is not None and F.name.startswith("gost_mac") and len(args) >= 5:
                # (ctx, bits, [iv,] data, length, mac)
                bits = args[1]
                mac = (args[-1], ('i', (bits[1] + 7) // 8) if bits[0] == 'i' else ('?',))
                d = args[-3]
                if d[0] == 'p':
                    st.ps[('fed', d[1])] = ('fed',)
        if callee in ("EVP_DigestUpdate", "EVP_DigestSignUpdate", "CMAC_Update", "HMAC_Update"):
            d = args[1]
            if d[0] == 'p':
                st.ps[('fed', d[1])] = ('fed',)
        if mac is not None and mac[0][0] == 'p':
            st.ps[('mac', mac[0][1])] = ('mac', mac[0], mac[1])
    def authentic(self, eng, st):
        """why the state is authenticated, or None"""
        for k, v in st.ps.items():
            if k[0] != 'eqv' or eng.rng(st, v[1]) != ((0, 0),):
                continue
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                m = st.ps.get(('mac', a[1])) if a[0] == 'p' else None
                if m is None or m[1] != a or (b[0] == 'p' and b[1] == a[1]):
                    continue
                if self.same_len(eng, st, v[4], m[2]):
                    return v
        return None
    def same_len(self, eng, st, n, l):
        if l[0] == 'cell':
            p = l[1]
            c = st.mem.get((p[1], p[2]))
            return c is not None and strip(c[1]) == strip(n)
        if l == ('?',):
            return True
        n, l = strip(n), strip(l)
        if n == l:
            return True
        rn, rl = eng.rng(st, n), eng.rng(st, l)
        return bool(rn) and bool(rl) and rn[0][0] >= rl[-1][1] >= 1
    def encrypting(self, eng, st, ctx):
        """True / False when known"""
        c = st.con.get(('get', ENC, ctx))
        if c is None and "enc" in st.ps:
            c = eng.rng(st, st.ps["enc"][1])
        if c is None:
            return None
        if c == ((0, 0),):
            return False
        return True if not any(lo <= 0 <= hi for lo, hi in c) else None

class AuthOut(MacTrack):
    """writes through one pointer argument only what was authenticated"""
    def __init__(self, prog, F, i):
        super().__init__(prog, F)
        self.i = i
        self.out = ('d', ('arg', i))
        self.sub = set()
        self.stats = {"writes": set(), "good": set()}
    def check(self, eng, st, I, what, src=None):
        self.stats["writes"].add((self.F.name, I.id))
        ctx = ('p', ('d', ('arg', 0)), 0)
        if self.encrypting(eng, st, ctx):
            return
        a = self.authentic(eng, st)
        key = "%s/%s" % (self.F.name, what)
        if a is None:
            if key not in self.reports:
                self.reports[key] = Report("unauthenticated-output", key, I.where(),
                    "the caller's key buffer is written by %s although no whole integrity code was compared and found equal" % what, fmt_path(st.path(14)))
            return
        if src is not None and src[0] == 'p' and ('fed', src[1]) not in st.ps:
            if key not in self.reports:
                self.reports[key] = Report("other-data", key, I.where(), "the bytes released by %s are not those the integrity code was computed over" % what, fmt_path(st.path(14)))
            return
        self.stats["good"].add((self.F.name, I.id))
    def store(self, eng, st, I, ptr, val, size):
        b = eng.base_of(ptr)
        if b is not None and b[0] == self.out and val != ('i', 0):
            self.check(eng, st, I, "a store")
    def access(self, eng, st, I, ptr, size, kind, what):
        b = eng.base_of(ptr)
        if b is not None and b[0] == self.out and kind == "w" and what not in ("llvm.memset", "memset", "OPENSSL_cleanse"):
            src = None
            args = eng.vals(st, I)
            if len(args) > 1 and "mem" in what:
                src = args[1]
            self.check(eng, st, I, what, src)
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        if callee is None or ok is False:
            return
        A = API.get(callee)
        F = self.prog.fn.get(callee)
        for j, a in enumerate(args):
            b = eng.base_of(a) if a[0] == 'p' else None
            if b is None or b[0] != self.out:
                continue
            if A is not None:
                if j in A.out:
                    self.check(eng, st, I, callee)
            elif F is not None and j < len(F.argt) and not F.argt[j].startswith("const "):
                self.sub.add((callee, j))
                self.stats["writes"].add((self.F.name, I.id))
                self.stats["good"].add((self.F.name, I.id))

def c04(tier="quick"):
    P = tables.program()
    rl = roles.roles(P)
    R = Result()
    todo = []
    for F in P.roots():
        if "pmeth.decrypt" in rl.get(F.name, ()) and len(F.args) == 5:
            todo.append((F.name, 1))
    n1 = len(todo)
    for c in roles.ciphers(P):
        if c.mode == WRAP and c.fn("do_cipher"):
            todo.append((c.fn("do_cipher"), 1))
    n2 = len(todo) - n1
    R.floor("key transport decryption callbacks", n1, 1)
    R.floor("key unwrapping ciphers", n2, 2)
    done, writes, good = set(), set(), set()
    while todo:
        n, i = todo.pop()
        if (n, i) in done:
            continue
        done.add((n, i))
        F = P.fn[n]
        ck, e = attempt(P, F, lambda P, F: AuthOut(P, F, i))
        R.reports += ck.reports.values()
        writes |= ck.stats["writes"]
        good |= ck.stats["good"]
        todo += sorted(ck.sub)
    R.coverage["functions"] = sorted("%s argument %d" % x for x in done)
    R.floor("writes to the caller's key buffer", len(writes), 4)
    R.floor("unwrapping functions", len(done) - n1 - n2, 2)
    R.coverage["explanation"] = ("Starting from the decryption callbacks and the key wrap ciphers, every write through the output pointer (stores, "
        "copies, library outputs, and repository functions the pointer is handed to) must be dominated by CRYPTO_memcmp() == 0 "
        "of a freshly computed integrity code with the received one over the code's whole length, computed over the released bytes.")
    R.assumptions += SHARED
    return R

class Verdict(MacTrack):
    """success of a final call while decrypting implies that the tag was compared"""
    SUMS = {}                 # function -> 'z' or 'n': its success implies the comparison
    def __init__(self, prog, F, rc, final=None, core=False):
        super().__init__(prog, F)
        self.rc, self.final, self.core = rc, final, core
        self.stats = {"finals": 0}
        self.need = set()
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        if callee in self.SUMS and val is not None:
            st.ps[('verdict', I.id)] = ('v', callee, val) + tuple(args)
    def ret(self, eng, st, I, val):
        if val is None:
            return
        r = eng.rng(st, val)
        succ = {"z": any(lo <= 0 <= hi for lo, hi in r), "n": r[-1][1] >= 0, "s": r[-1][1] > 0}[self.rc]
        if not succ:
            return
        ctx = ('p', ('d', ('arg', 0)), 0)
        if self.final is not None:
            a = ('s', ('arg', self.final))
            if not any(lo <= 0 <= hi for lo, hi in eng.rng(st, a)):
                return                      # data was passed: not the final call
        if self.encrypting(eng, st, ctx):
            return
        self.stats["finals"] += 1
        if self.compared(eng, st, val):
            return
        key = "%s/verdict" % self.F.name
        if key not in self.reports:
            self.reports[key] = Report("unverified-tag", key, I.where(), "finishing a decryption reports success although the tag was not compared as a whole and found equal", fmt_path(st.path(14)))
    def compared(self, eng, st, val):
        for k, v in st.ps.items():
            if k[0] == 'eqv':
                zero = eng.rng(st, v[1]) == ((0, 0),) or (self.rc == "z" and v[1] == val)
                if zero and self.whole(eng, st, v):
                    return True
            if k[0] == 'verdict':
                s = self.SUMS[v[1]]
                r = eng.rng(st, v[2])
                if (s == "z" and r == ((0, 0),)) or (s == "n" and r[0][0] >= 0) or (s == "s" and r[0][0] > 0) or v[2] == val:
                    return True
        return False
    def whole(self, eng, st, v):
        _, _, a, b, n = v
        for x, y in ((a, b), (b, a)):
            m = st.ps.get(('mac', x[1])) if x[0] == 'p' else None
            if m is not None and m[1] == x and self.same_len(eng, st, n, m[2]) and not (y[0] == 'p' and y[1] == x[1]):
                return True
        # the tag kept in the context against a tag and length that were passed in
        s = strip(n)
        if s[0] == 's' and s[1][0] == 'arg':
            return any(x[0] == 'p' and x[1] == ('d', ('arg', i)) and x[2] == 0 for x in (a, b) for i in range(len(self.F.args)) if i != 0) and a != b
        return False

def reach_calls(P, F):
    out = set()
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "call" and I.callee in P.fn:
                out.add(I.callee)
    return out

def compares(F):
    return any(I.op == "call" and I.callee in ("CRYPTO_memcmp", "memcmp") for b in F.order for I in F.blocks[b])

def c18(tier="quick"):
    P = tables.program()
    R = Result()
    rl = roles.roles(P)
    cs = [c for c in roles.ciphers(P) if c.flags & (AEAD | WITH_MAC)]
    R.floor("authenticated ciphers", len(cs), 4)
    roots = sorted({c.fn("do_cipher") for c in cs})
    Verdict.SUMS = {}
    cand = set()
    for n in roots:
        for f in reach_calls(P, P.fn[n]):
            F = P.fn[f]
            if F.ret == "i32" and (compares(F) or "tag" in " ".join(str(a[1]) for a in F.args) or any(compares(P.fn[g]) for g in reach_calls(P, F))):
                cand.add(f)
    finals = 0
    # a function whose success implies the comparison (the conventions 0 = success and >= 0 = success are tried)
    for f in sorted(cand):
        F = P.fn[f]
        for rc in ("z", "n", "s"):
            ck, e = attempt(P, F, lambda P, F: Verdict(P, F, rc, core=True))
            if not ck.reports and ck.stats["finals"]:
                Verdict.SUMS[f] = rc
                finals += ck.stats["finals"]
                break
    for n in roots:
        F = P.fn[n]
        custom = any(c.custom for c in cs if c.fn("do_cipher") == n)
        ck, e = attempt(P, F, lambda P, F: Verdict(P, F, "n" if custom else "s", final=2))
        R.reports += ck.reports.values()
        finals += ck.stats["finals"]
    R.floor("final handlers", len(roots), 4)
    R.floor("functions whose success implies the comparison", len(Verdict.SUMS), 2)
    R.floor("successful final paths", finals, 4)
    taglen(P, cs, R)
    R.coverage["verdict functions"] = sorted("%s (%s)" % x for x in Verdict.SUMS.items())
    R.coverage["explanation"] = ("For every cipher flagged as authenticated, each path of its data handler that can be the final call while "
        "decrypting and returns success must have passed CRYPTO_memcmp() == 0 over the whole tag, directly or through a "
        "function whose success was shown to imply it; tag lengths stored from outside are positive.")
    R.assumptions += SHARED
    return R

class LenStore(Checker):
    """records the ranges stored to one field by control functions"""
    weak = True
    def __init__(self, prog, F, off, size):
        super().__init__()
        self.prog, self.F, self.off, self.size = prog, F, off, size
        self.vals = []
        self.stats = {}
    def store(self, eng, st, I, ptr, val, size):
        b = eng.base_of(ptr)
        if b is not None and b[1] == self.off and size == self.size and b[0][0] == 'd' and \
                str(b[0]).find("EVP_CIPHER_CTX_get_cipher_data") >= 0:
            self.vals.append((I, val, eng.rng(st, val), st.path(8)))

def taglen(P, cs, R):
    """the length handed to the comparison is positive: the field it is loaded from only receives -1 or positive values"""
    n = 0
    for c in cs:
        do = P.fn[c.fn("do_cipher")]
        fields = set()
        for b in do.order:
            for I in do.blocks[b]:
                if I.op == "call" and I.callee in Verdict.SUMS:
                    for a in I.args[1:]:
                        J = do.ins.get(a[1]) if a[0] == 'v' else None
                        while J is not None and J.op in ("sext", "zext", "trunc"):
                            J = do.ins.get(J.args[0][1]) if J.args[0][0] == 'v' else None
                        if J is not None and J.op == "load" and J.args[0][0] == 'v' and J.t in ("i32", "i64"):
                            g = do.ins.get(J.args[0][1])
                            if g is not None and g.op == "getelementptr" and not g.j["vo"]:
                                fields.add((g.j["o"], J.j["sz"]))
        for off, sz in fields:
            for k in ("init", "ctrl", "do_cipher"):
                f = c.fn(k)
                if not f:
                    continue
                ck, e = attempt(P, P.fn[f], lambda P, F: LenStore(P, F, off, sz))
                for I, v, r, path in ck.vals:
                    n += 1
                    if any(lo <= 0 <= hi for lo, hi in r):
                        R.reports.append(Report("empty-tag", "%s/taglen" % f, I.where(), "a tag length of zero can be stored, with which every tag compares equal", fmt_path(path)))
    R.floor("stores to tag lengths", n, 4)
