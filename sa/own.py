"""Ownership: every object acquired in a call is released, handed over or returned exactly once."""
from engine import Checker, Engine, NULL, mentions
from api import API
from common import Report, fmt_path
import conv as CV
from c03 import FALL

# releasing function -> kinds it may be applied to (None: anything)
SHALLOW = {"CRYPTO_free", "CRYPTO_clear_free", "CRYPTO_secure_free", "CRYPTO_secure_clear_free", "free"}
FREES = {
    "CRYPTO_free": {"mem"}, "CRYPTO_clear_free": {"mem"},
    "CRYPTO_secure_free": {"mem", "smem"}, "CRYPTO_secure_clear_free": {"mem", "smem"},
    "free": {"cmem"}, "BN_free": {"BN"}, "BN_clear_free": {"BN"},
    "EC_POINT_free": {"EC_POINT"}, "EC_POINT_clear_free": {"EC_POINT"},
    "EC_KEY_free": {"EC_KEY"}, "EC_GROUP_free": {"EC_GROUP"}, "BN_CTX_free": {"BN_CTX"},
    "EVP_PKEY_free": {"EVP_PKEY"}, "EVP_MD_CTX_free": {"EVP_MD_CTX"}, "EVP_CIPHER_CTX_free": {"EVP_CIPHER_CTX"},
    "HMAC_CTX_free": {"HMAC_CTX"}, "CMAC_CTX_free": {"CMAC_CTX"}, "ECDSA_SIG_free": {"ECDSA_SIG"},
    "ASN1_OBJECT_free": {"ASN1_OBJECT"}, "X509_PUBKEY_free": {"X509_PUBKEY"},
    "ASN1_STRING_free": {"ASN1_STRING", "ASN1_INTEGER"}, "ASN1_STRING_clear_free": {"ASN1_STRING", "ASN1_INTEGER"},
    "ASN1_INTEGER_free": {"ASN1_STRING", "ASN1_INTEGER"}, "ASN1_OCTET_STRING_free": {"ASN1_STRING"},
    "ASN1_TYPE_free": {"ASN1_TYPE"},
}

class OwnCheck(Checker):
    def __init__(self, prog, F):
        super().__init__()
        self.prog, self.F = prog, F
        self.stats = {"acquire_sites": set(), "release_sites": set()}
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        c = CV.conv(self.prog, callee)
        return CV.RANGES[c.split(":")[0]]

    # ps: base -> ('own', kind, callee, id) | ('freed', callee, id) | ('esc',)
    def base(self, v):
        if v[0] == 'p' and v[1][0] in 'hd':
            return v[1]
        if v[0] == 's':
            return ('d', v[1])
        return None
    def ins(self, iid):
        for b in self.F.order:
            for K in self.F.blocks[b]:
                if K.id == iid:
                    return K
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None:
            return self.use_args(eng, st, I, callee, args)
        A = API.get(callee)
        if A is None:
            c = CV.conv(self.prog, callee)
            if c and c.startswith("p") and ok and val[1] == ('h', I.id):
                self.acquire(eng, st, I, val, c.split(":")[1] if ":" in c else "obj", callee)
            fr = CV.FREES_ARG.get(callee) if callee in self.prog.fn else None
            if fr is not None and fr < len(args):
                for i, a in enumerate(args):
                    if i != fr:
                        self.use(eng, st, I, callee, a)
                return self.release(eng, st, I, callee, args[fr], None)
            return self.use_args(eng, st, I, callee, args)
        if A.noret:
            return
        frs = [i for i in A.fr if i < len(args)]
        for i in range(len(args)):
            if i not in frs:
                self.use(eng, st, I, callee, args[i])
        for i in frs:
            self.release(eng, st, I, callee, args[i], FREES.get(callee))
        if ok is not False:
            for i in A.own:
                if i < len(args):
                    self.escape(eng, st, args[i])
        for i in A.ownA:
            if i < len(args):
                self.escape(eng, st, args[i])
        if A.ret == "p" and ok and val[1] == ('h', I.id):
            self.acquire(eng, st, I, val, A.kind, callee)
        if ok is not False:
            for i, kind in A.outalloc.items():
                if i < len(args) and args[i][0] == 'p' and \
                        st.mem.get((args[i][1], args[i][2]), (0, 0))[1] == ('p', ('h', I.id), 0):
                    st.ps[('h', I.id)] = ('own', kind, callee, I.id)
    def use_args(self, eng, st, I, callee, args):
        for a in args:
            self.use(eng, st, I, callee or "indirect call", a)
    def use(self, eng, st, I, callee, a):
        b = self.base(a)
        if b is not None:
            s = st.ps.get(b)
            if s and s[0] == 'freed':
                self.rep(eng, st, I, "use-after-release", callee,
                         "object released by %s is passed to %s" % (s[1], callee))
    def acquire(self, eng, st, I, val, kind, callee):
        b = self.base(val)
        if b is None:
            return
        self.stats["acquire_sites"].add((self.F.name, I.fn, callee, I.id))
        st.ps[b] = ('own', kind, callee, I.id)
    def release(self, eng, st, I, callee, a, kinds):
        b = self.base(a)
        if b is None:
            return
        if ((0, 0),) == eng.rng(st, a):
            return
        self.stats["release_sites"].add((self.F.name, I.fn, callee, I.id))
        s = st.ps.get(b)
        if a[0] == 'p' and a[2] != 0:
            self.rep(eng, st, I, "bad-release", callee, "%s applied to the middle of an object" % callee)
            return
        if s and s[0] == 'freed':
            self.rep(eng, st, I, "double-release", callee, "object already released by %s is released again" % s[1])
            return
        if s and s[0] == 'own' and kinds is not None and s[1] not in kinds:
            self.rep(eng, st, I, "mismatched-release", callee, "object from %s released with %s" % (s[2], callee))
        if s and s[0] == 'lent':
            self.rep(eng, st, I, "double-release", callee, "object was handed over to another owner by %s and is released here" % s[1])
            return
        if callee not in SHALLOW and b[0] in 'hd':
            work, seen = [b], {b}
            while work:
                x = work.pop()
                for (bb, o), (sz, v) in list(st.mem.items()):
                    c = self.base(v) if bb == x else None
                    if c is not None and c not in seen:
                        seen.add(c)
                        if c[0] == 'h' and st.ps.get(c, ('',))[0] == 'own':
                            st.ps[c] = ('freed', callee, I.id)
                        if c[0] == 'd':
                            work.append(c)
        if b[0] == 'h' or self.track_d:
            st.ps[b] = ('freed', callee, I.id)
    track_d = True
    def escape(self, eng, st, v, seen=None):
        b = self.base(v) if v[0] in 'ps' else None
        if b is None:
            return
        seen = seen if seen is not None else set()
        if b in seen:
            return
        seen.add(b)
        s = st.ps.get(b)
        if s and s[0] == 'own':
            del st.ps[b]
        for (bb, o), (sz, x) in list(st.mem.items()):
            if bb == b and x[0] == 'p':
                self.escape(eng, st, x, seen)
    def store(self, eng, st, I, ptr, val, size):
        b = eng.base_of(ptr)
        if b is not None:
            s = st.ps.get(b[0])
            if s and s[0] == 'freed':
                self.rep(eng, st, I, "use-after-release", "store", "write to an object released by %s" % s[1])
            if val[0] == 'p':
                if b[0][0] == 'g' or b[0][0] == 'd' or (b[0][0] == 'h' and b[0] not in st.ps):
                    self.escape(eng, st, val)
        else:
            self.escape(eng, st, val)
    def load(self, eng, st, I, ptr, size):
        b = eng.base_of(ptr)
        if b is not None:
            s = st.ps.get(b[0])
            if s and s[0] == 'freed':
                self.rep(eng, st, I, "use-after-release", "load", "read of an object released by %s" % s[1])
    def access(self, eng, st, I, ptr, size, kind, what):
        if size != ('i', 0):
            self.use(eng, st, I, what, ptr)
    weak = True
    def prune(self, eng, st, bases, b):
        if b not in self.F.reaches_ret:
            return
        for k in [k for k in st.ps if isinstance(k, tuple) and k not in bases]:
            s = st.ps.pop(k)
            if s[0] == 'own' and k[0] == 'h':
                I = self.F.blocks[b][0]
                self.leak(eng, st, I, s, "becomes unreachable without being released")
    def lost(self, eng, st, I, base):
        old = ('h', ('o', I.id))
        s = st.ps.get(base)
        if s and s[0] == 'own' and not self.reach(st, base):
            self.leak(eng, st, I, s, "is dropped when the loop repeats")
    def reach(self, st, base):
        for v in list(st.env.values()) + [c[1] for c in st.mem.values()]:
            if v[0] == 'p' and v[1] == base:
                return True
        return False
    def ret(self, eng, st, I, val):
        fa = {b[1][1] for b, s in st.ps.items() if isinstance(b, tuple) and b[0] == 'd' and b[1][0] == 'arg'
              and s[0] == 'freed'}
        nul = {i for i in range(len(self.F.args)) if st.con.get(('arg', i)) == ((0, 0),)}
        self.freed_args = [fa | nul] if not hasattr(self, "freed_args") else self.freed_args + [fa | nul]
        if val is not None and val[0] == 'p':
            self.escape(eng, st, val)
            s = st.ps.get(val[1])
            if s and s[0] == 'freed':
                self.rep(eng, st, I, "use-after-release", "return", "returns an object released by %s" % s[1])
        # objects attached to another object that is still owned are reported through their parent
        owned = {b: s for b, s in st.ps.items() if isinstance(b, tuple)  and isinstance(s, tuple) and s[0] == 'own'}
        inner = set()
        for (bb, o), (sz, v) in st.mem.items():
            if bb in owned and v[0] == 'p' and v[1] != bb:
                inner.add(v[1])
        for b, s in owned.items():
            if b not in inner:
                self.leak(eng, st, I, s, "is neither released, stored nor returned")
        for (bb, o), (sz, v) in st.mem.items():
            if v[0] == 'p' and bb[0] in 'dg' and st.ps.get(bb, ('',))[0] != 'freed':
                s = st.ps.get(v[1])
                if s and s[0] == 'freed' and v[2] == 0 and (v[1][0] == 'h' or eng.rng(st, v) != ((0, 0),)):
                    self.rep(eng, st, self.ins(s[2]), "dangling", s[1],
                             "object released by %s stays reachable from the caller's object" % s[1])
    def leak(self, eng, st, I, s, how):
        J = self.ins(s[3])
        self.rep(eng, st, J, "leak", s[2], "object from %s %s" % (s[2], how))
    def rep(self, eng, st, I, rule, what, detail):
        key = (rule, self.F.name, I.fn, what)
        if key not in self.reports:
            self.reports[key] = Report(rule, "%s/%s/%s" % (self.F.name, rule, what), I.where(), detail, fmt_path(st.path(14)))

def relevant(P, F):
    """can the function acquire, release or hand over anything at all?"""
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "call" and I.callee:
                A = API.get(I.callee)
                if A is not None and (A.fr or A.own or A.ownA or A.ret == "p" or A.outalloc):
                    return True
                if A is None and ((CV.conv(P, I.callee) or "").startswith("p") or I.callee in CV.FREES_ARG):
                    return True
    return False

def summaries(P):
    """which of the repository's exported functions release one of their arguments on every path"""
    for F in P.roots():
        if F.name in CV.FREES_ARG or F.local:
            continue
        params = {a[0]: i for i, a in enumerate(F.args)}
        cand = set()
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call" and I.callee:
                    A = API.get(I.callee)
                    for i in (A.fr if A is not None else ()):
                        if i < len(I.args) and I.args[i][0] == 'v' and I.args[i][1] in params:
                            cand.add(params[I.args[i][1]])
        if not cand:
            continue
        ck = OwnCheck(P, F)
        ck.run_only = True
        Engine(F, P, ck, cap=3000).run()
        fa = getattr(ck, "freed_args", [])
        always = {i for i in cand if fa and all(i in x for x in fa)}
        if always:
            CV.FREES_ARG[F.name] = min(always)
