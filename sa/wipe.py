"""Secret temporaries are wiped (C08).

The functions are analysed without inlining.  A flow-insensitive fixpoint over the whole program finds the secret
objects: whatever is used as a key by a key-setting primitive, whatever private numbers are converted to or from,
what decryption of wrapped keys yields, and everything copied from those.  A path-sensitive pass then shows that
each local object holding such data is cleansed when the function returns, and each heap object when it is
released."""
import functools
import front
from front import Program, AnalysisError
from engine import Checker, Engine, NULL, INF, iv_hull
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
import roles, tables

# arguments of primitives that carry keys, the objects keyed by them, and results of decryption
LEAF = {
    "EVP_CipherInit_ex": (3,), "EVP_EncryptInit_ex": (3,), "EVP_DecryptInit_ex": (3,), "EVP_CipherInit": (2,),
    "EVP_CipherInit_ex2": (2,), "EVP_EncryptInit_ex2": (2,), "EVP_EncryptInit": (2,), "EVP_DecryptInit": (2,),
    "HMAC_Init_ex": (1,), "HMAC_Init": (1,), "HMAC": (1,), "CMAC_Init": (1,), "EVP_PKEY_new_mac_key": (2,),
    "EC_KEY_set_private_key": (1,), "BN_priv_rand_range": (0,), "BN_priv_rand": (0,),
    "gost_key_impl": (0, 1), "gost_key": (0, 1), "magma_key": (0, 1), "gost_key_nomask": (1,),
    "grasshopper_set_encrypt_key": (0, 1), "grasshopper_set_decrypt_key": (0, 1),
    "gost_dec": (2,), "gost_get_key": (1,), "magma_get_key": (1,), "acpkm_magma_key_meshing": (0,),
    "VKO_compute_key": (0,), "gost_kdftree2012_256": (0,), "gost_keg": (4,), "gost_kimp15": (8,),
    "keyWrapCryptoPro": (1,), "keyUnwrapCryptoPro": (1, 3), "keyDiversifyCryptoPro": (1, 3),
    "keyUnwrapMagma": (0,), "gost_tlstree": (1, 2), "make_kn": (0, 1),
}
RET = {"EC_KEY_get0_private_key", "gost_get0_priv_key"}
# (arguments read, arguments written): the written objects are as secret as those read
COPY = {
    "BN_bn2lebinpad": ((0,), 1), "BN_bn2binpad": ((0,), 1), "BN_bn2bin": ((0,), 1), "BN_copy": ((1,), 0),
    "BUF_reverse": ((1,), 0), "ASN1_STRING_set": ((1,), 0), "ASN1_OCTET_STRING_set": ((1,), 0),
    "BN_bn2nativepad": ((0,), 1),
}
# number of bytes written: (object, count)
COUNT = {"make_kn": (0, 2)}
# results of arithmetic that are secret make the operands secret
ARITH = {"BN_mod_mul": (1, 2), "BN_mod_add": (1, 2), "BN_mul": (1, 2), "BN_mod_sub": (1, 2), "BN_add": (1, 2)}
# result is a view of, or made from, an argument (both directions)
VIEW = {"ASN1_STRING_get0_data": (0,), "BN_lebin2bn": (0, 2), "BN_bin2bn": (0, 2), "ASN1_INTEGER_to_BN": (0, 1),
        "BN_dup": (0,), "CRYPTO_memdup": (0,), "ASN1_STRING_data": (0,)}
WIPE_FREE = {"BN_clear_free", "ASN1_STRING_clear_free", "EC_POINT_clear_free", "CRYPTO_clear_free",
             "CRYPTO_secure_clear_free", "BN_CTX_free"}
# releasing functions that wipe by themselves for these constructors
SECURE = {"BN_secure_new", "BN_CTX_get", "BN_CTX_secure_new", "CRYPTO_secure_malloc", "CRYPTO_secure_zalloc"}
FREE = {"CRYPTO_free": 0, "BN_free": 0, "ASN1_STRING_free": 0, "ASN1_OCTET_STRING_free": 0, "ASN1_INTEGER_free": 0,
        "EC_POINT_free": 0, "CRYPTO_secure_free": 0, "ASN1_BIT_STRING_free": 0, "ASN1_item_free": 0}

VIEWED = {"asn1_string_st", "asn1_type_st"}

def struct_name(s):
    s = (s or "").lstrip("%")
    return s.split(".")[1] if s.startswith(("struct.", "union.")) else None

class Sum:
    """secret objects of one function"""
    def __init__(self, F):
        self.F = F
        self.roots = {}
        self.sec = set()
    def root(self, o, seen=None):
        """set of objects an operand may point into"""
        if o[0] == 'g':
            return frozenset([('g', o[1])])
        if o[0] != 'v':
            return frozenset()
        if o[1] in self.roots:
            return self.roots[o[1]]
        F = self.F
        seen = seen or set()
        if o[1] in seen:
            return frozenset()
        seen.add(o[1])
        for i, (aid, nm, t) in enumerate(F.args):
            if aid == o[1]:
                return frozenset([('arg', i)])
        I = F.ins.get(o[1])
        if I is None:
            return frozenset()
        if I.op == "alloca":
            r = frozenset([('a', I.id)])
        elif I.op == "getelementptr":
            r = set(self.root(I.j["b"], seen))
            if any(x[0] not in 'ag' for x in r) or not r:
                f = self.field(o)
                if f and f[0] not in VIEWED:
                    r.add(('f',) + f)
            r = frozenset(r)
        elif I.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            r = self.root(I.args[0], seen)
        elif I.op == "phi":
            r = frozenset().union(*[self.root(x, seen) for x in I.j["in"].values()])
        elif I.op == "select":
            r = self.root(I.args[1], seen) | self.root(I.args[2], seen)
        elif I.op == "load" and I.t == "ptr":
            r = set()
            for x in self.root(I.args[0], seen):
                if x[0] == 'a' and F.ins[x[1]].j.get("at_") == "ptr":
                    r.add(('ld', x[1]))
            f = self.field(I.args[0])
            if f and f[0] in VIEWED:
                r |= self.root(F.ins[I.args[0][1]].j["b"], seen)
            elif f:
                r.add(('lf',) + f)
            r = frozenset(r)
        elif I.op == "call" and I.t == "ptr":
            r = frozenset([('c', I.id)])
        else:
            r = frozenset()
        if len(seen) == 1 or I.op in ("alloca", "call"):
            self.roots[o[1]] = r
        return r
    def field(self, o):
        """(structure, member offset) of the access path nearest to the object"""
        F = self.F
        best, off = None, 0
        while o[0] == 'v':
            I = F.ins.get(o[1])
            if I is None or I.op != "getelementptr":
                break
            s = struct_name(I.j.get("st"))
            if s:
                best = (s, I.j["o"] + (best[1] if best and best[2] else 0), True)
            o = I.j["b"]
        return best[:2] if best else None

class Secrets:
    def __init__(self, P):
        self.P = P
        self.fn = {}
        for F in P.roots():
            self.fn[id(F)] = Sum(F)
        self.args = {}            # function name -> argument positions that hold secrets
        self.fields = set()
        self.flow = {}
        self.words = {}           # copies word by word
        self.rets = set()
        self.sites = set()
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for s in self.fn.values():
                ch |= self.step(s)
        self.rounds = n
        # functions whose result comes from a constructor of wiping objects
        self.secure_rets = set()
        for s in self.fn.values():
            F = s.F
            rs = set()
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op == "ret" and I.args:
                        rs |= s.root(I.args[0])
            if rs and all(r[0] == 'c' and F.ins[r[1]].callee in SECURE for r in rs):
                self.secure_rets.add(F.name)
    def secure_ctx(self, s, o):
        for r in s.root(o):
            if r[0] == 'c' and s.F.ins[r[1]].callee == "BN_CTX_secure_new":
                return True
        return False
    def callee_args(self, name):
        r = set(LEAF.get(name, ()))
        r |= self.args.get(name, set())
        return r
    def step(self, s):
        F, P = s.F, self.P
        for i in LEAF.get(F.name, ()):
            s.sec.add(('arg', i))
        before = (len(s.sec), len(self.fields), len(self.rets), sum(map(len, self.args.values())))
        def mark(rs):
            for r in rs:
                if r[0] == 'g':
                    continue
                s.sec.add(r)
                if r[0] in ('f', 'lf'):
                    self.fields.add(r[1:])
        def is_sec(o):
            rs = s.root(o)
            return any(r in s.sec or (r[0] in ('f', 'lf') and r[1:] in self.fields) for r in rs)
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "ret" and I.args:
                    if F.name in self.rets:
                        mark(s.root(I.args[0]))
                    elif any(r[0] == 'c' and r in s.sec for r in s.root(I.args[0])):
                        self.rets.add(F.name)
                if I.op == "store" and F.name in LEAF and I.t != "ptr" and I.args[0][0] == 'v':
                    # what a key schedule stores
                    mark([r for r in s.root(I.args[1]) if r[0] == 'f'])
                if I.op == "store" and I.args[0][0] == 'v':
                    self.copied(s, I, mark, is_sec)
                if I.op == "call":
                    c = I.callee
                    if c in P.fn and I.t == "ptr":
                        if ('c', I.id) in s.sec:
                            self.rets.add(c)
                        elif c in self.rets:
                            mark([('c', I.id)])
                    if c is None:
                        continue
                    if c in RET:
                        mark([('c', I.id)])
                    if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
                        if is_sec(I.args[1]):
                            mark(s.root(I.args[0]))
                            self.sites.add((F.name, I.id))
                        d = s.root(I.args[0])
                        if any(r[0] == 'arg' and r in s.sec for r in d):
                            mark([r for r in s.root(I.args[1]) if r[0] == 'a'])
                        # what is stored as a key was a key before
                        f = s.field(I.args[0])
                        if f and f in self.fields and not any(r[0] == 'a' for r in s.root(I.args[0])):
                            mark(s.root(I.args[1]))
                        continue
                    if c.startswith("llvm."):
                        continue
                    if c == "EVP_MD_CTX_ctrl":
                        if I.args[1] == ('i', 0x1004) or (I.args[1][0] == 'i' and I.args[1][1] == 0x1004):
                            mark(s.root(I.args[3]))
                            self.sites.add((F.name, I.id))
                        continue
                    if c in ARITH and any(r in s.sec for r in s.root(I.args[0])):
                        for i in ARITH[c]:
                            mark(s.root(I.args[i]))
                    if c in ("RAND_priv_bytes",) and F.name in LEAF:
                        mark(s.root(I.args[0]))
                    for i in self.callee_args(c):
                        if i < len(I.args):
                            mark(s.root(I.args[i]))
                            self.sites.add((F.name, I.id))
                    for rd, wr in ([COPY[c]] if c in COPY else []) + self.flow.get(c, []) + \
                            (self.words.get(c, []) if F.name in LEAF else []):
                        if wr >= len(I.args):
                            continue
                        for r in s.root(I.args[wr]):
                            for i in rd:
                                for q in s.root(I.args[i]):
                                    if r[0] == q[0] == 'arg':
                                        f = self.flow.setdefault(F.name, [])
                                        if ((q[1],), r[1]) not in f:
                                            f.append(((q[1],), r[1]))
                        for i in rd:
                            # numbers of a secure context that leave as bytes
                            for q in s.root(I.args[i]):
                                J = F.ins[q[1]] if q[0] == 'c' else None
                                if J is not None and J.callee == "BN_CTX_get" and self.secure_ctx(s, J.args[0]):
                                    mark([q])
                        if any(is_sec(I.args[i]) for i in rd):
                            mark(s.root(I.args[wr]))
                            self.sites.add((F.name, I.id))
                    if c.startswith("i2d_") and is_sec(I.args[0]) and len(I.args) > 1:
                        for r in s.root(I.args[1]):
                            if r[0] == 'a':
                                mark([('ld', r[1])])
                    if c in VIEW:
                        as_ = [I.args[i] for i in VIEW[c] if i < len(I.args)]
                        if ('c', I.id) in s.sec or any(is_sec(a) for a in as_):
                            mark([('c', I.id)])
                            for a in as_:
                                mark(s.root(a))
                            self.sites.add((F.name, I.id))
                    if c.startswith("d2i_") and ('c', I.id) in s.sec:
                        self.sites.add((F.name, I.id))
                    if c == "EC_POINT_get_affine_coordinates" and any(is_sec(a) for a in I.args[2:4]):
                        mark(s.root(I.args[1]))
        # arguments
        for r in s.sec:
            if r[0] == 'arg':
                self.args.setdefault(F.name, set()).add(r[1])
        return before != (len(s.sec), len(self.fields), len(self.rets), sum(map(len, self.args.values())))

    def copied(self, s, I, mark, is_sec):
        """copying word by word"""
        F = s.F
        J = F.ins.get(I.args[0][1])
        while J is not None and J.op in ("zext", "trunc", "freeze"):
            J = F.ins.get(J.args[0][1]) if J.args[0][0] == 'v' else None
        if J is None or J.op != "load" or J.t == "ptr":
            return
        dst, src = s.root(I.args[1]), s.root(J.args[0])
        for r in dst:
            for q in src:
                if r[0] == q[0] == 'arg' and r != q:
                    f = self.words.setdefault(F.name, [])
                    if ((q[1],), r[1]) not in f:
                        f.append(((q[1],), r[1]))
        # in a key schedule, what is copied from the key
        if F.name in LEAF and is_sec(J.args[0]):
            mark([r for r in dst if r[0] == 'a'])

def types_of(S, F, o, depth=0):
    """structure types an operand is used as in its function, and in the functions it is handed to"""
    s = S.fn[id(F)]
    rs = s.root(o)
    out = set()
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "getelementptr":
                n = struct_name(I.j.get("st"))
                if n and s.root(I.j["b"]) & rs:
                    out.add(n)
            elif I.op == "call" and I.callee in S.P.fn and depth < 3:
                for i, a in enumerate(I.args):
                    if a[0] == 'v' and s.root(a) & rs:
                        G = S.P.fn[I.callee]
                        if i < len(G.args):
                            out |= types_of(S, G, ('v', G.args[i][0]), depth + 1)
    return out

class Extents:
    """size of the member that starts at an offset"""
    def __init__(self, S):
        self.P = S.P
        self.offs = {}
        for s in S.fn.values():
            for b in s.F.order:
                for I in s.F.blocks[b]:
                    if I.op == "getelementptr":
                        n = struct_name(I.j.get("st"))
                        if n:
                            self.offs.setdefault(n, set()).add(I.j["o"])
    def size(self, st, off):
        d = self.P.structs.get(st)
        if d:
            for o, n, nm, t in d["f"]:
                if o == off:
                    return n
        nx = [o for o in self.offs.get(st, ()) if o > off]
        return min(nx) - off if nx else 8

@functools.lru_cache(None)
def ret_consts(F):
    """the constants a function returns, None when it returns anything else"""
    out = set()
    seen = set()
    def go(o):
        if o[0] == 'i':
            out.add(o[1])
            return True
        if o[0] != 'v' or o[1] not in F.ins:
            return False
        if o[1] in seen:
            return True
        seen.add(o[1])
        I = F.ins[o[1]]
        if I.op == "phi":
            return all(go(v) for v in I.j["in"].values())
        if I.op == "select":
            return go(I.args[1]) and go(I.args[2])
        if I.op in ("zext", "sext") and I.j.get("ft") == "i1":
            out.update((0, 1))
            return True
        return False
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "ret" and (not I.args or not go(I.args[0])):
                return None
    return frozenset(out) or None

class WipeCheck(Checker):
    weak = False
    S = None
    EXT = None
    CLEAN = {}
    EXEMPT_TU = {"gosthash.c"}
    def __init__(self, prog, F):
        super().__init__()
        self.prog, self.F = prog, F
        self.s = self.S.fn[id(F)]
        self.stats = {"objects": set(), "wipes": set(), "releases": set(), "returns": set()}
        self.clean = None
        self.outs = {}
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call":
                    for i, a in enumerate(I.args):
                        for r in (self.s.root(a) if a[0] == 'v' else ()):
                            if ('ld', r[1] if len(r) > 1 else None) in self.s.sec and r[0] == 'a':
                                self.outs[I.id] = r[1]
        # nothing but cleansing calls
        self.destructor = all(I.op in ("ret", "br", "getelementptr", "icmp") or
                              I.op == "call" and (I.callee or "").endswith(("cleanse", "_free", "_cleanup", "_destroy", "_reset"))
                              for b in F.order for I in F.blocks[b])
        self.on = F.mod.tu not in self.EXEMPT_TU
    def want_fork(self, callee, I):
        return True
    def name(self, base):
        if base[0] == 'a':
            return "local %s" % (self.F.ins[base[1]].j.get("var") or "?")
        i = base[1]
        while isinstance(i, tuple):
            i = i[-1]
        I = self.F.ins.get(i)
        return "object from %s()" % (I.callee if I is not None else "?")
    def root_of(self, base):
        if base[0] == 'a':
            return base if base in self.s.sec else None
        if base[0] == 'h':
            i = base[1]
            while isinstance(i, tuple):
                i = i[-1]
            if ('c', i) in self.s.sec:
                return ('c', i)
            if i in self.outs:
                return ('ld', self.outs[i])
        return None
    def dirty(self, eng, st, base, lo=0, hi=None):
        if not self.on or self.root_of(base) is None:
            return
        self.stats["objects"].add((self.F.mod.tu, self.F.name, self.name(base)))
        hi = INF if hi is None else hi
        old = st.ps.get(('dirty', base))
        if old:
            lo, hi = min(lo, old[1]), max(hi, old[2])
        st.ps[('dirty', base)] = ('r', lo, hi)
    def range_of(self, eng, st, off, n):
        lo, hi = (off, off) if isinstance(off, int) else iv_hull(eng.rng(st, off))
        _, m = iv_hull(eng.rng(st, n))
        return max(lo, 0), hi + m if hi < INF and m < INF else INF
    def store(self, eng, st, I, ptr, val, size):
        bo = eng.base_of(ptr)
        if bo and val != ('i', 0):
            lo, hi = self.range_of(eng, st, bo[1], ('i', size))
            self.dirty(eng, st, bo[0], lo, hi)
    def access(self, eng, st, I, ptr, size, kind, what):
        if kind == 'w' and not what.startswith("llvm.memset"):
            bo = eng.base_of(ptr)
            if bo:
                lo, hi = self.range_of(eng, st, bo[1], size)
                self.dirty(eng, st, bo[0], lo, hi)
    def wipe(self, eng, st, I, ptr, n):
        bo = eng.base_of(ptr)
        if not bo:
            return
        base, off = bo
        self.stats["wipes"].add((self.F.mod.tu, I.id))
        lo = off if isinstance(off, int) else None
        if lo is None:
            return
        st.ps[('cl', base, lo)] = n
        d = st.ps.get(('dirty', base))
        if d:
            nlo, _ = iv_hull(eng.rng(st, n))
            size = self.size(eng, st, base)
            hi = d[2]
            if size is not None and size[0] == 'i':
                hi = min(hi, size[1])
            if lo <= d[1] and (lo + nlo >= hi or (lo == 0 and n == size) or
                               (len(d) > 3 and lo == 0 and n == d[3])):
                st.ps.pop(('dirty', base))
    def size(self, eng, st, base):
        if base[0] == 'a':
            z = eng.cell_size(base)
            return ('i', z) if z is not None else None
        return st.ps.get(('size', base))
    def uncovered(self, eng, st, base, types):
        """secret members of an object that were not cleansed on this path"""
        miss = []
        for t, o in sorted(self.S.fields):
            if t not in types:
                continue
            need = self.EXT.size(t, o)
            ok = False
            for k, n in st.ps.items():
                if isinstance(k, tuple) and k[0] == 'cl' and k[1] == base and isinstance(k[2], int) and k[2] <= o:
                    lo, _ = iv_hull(eng.rng(st, n))
                    ok |= k[2] + lo >= o + need
            if not ok:
                miss.append((t, o))
        return miss
    def call(self, eng, st, I, callee, args):
        if callee is None:
            return None
        if callee == "OPENSSL_cleanse":
            self.wipe(eng, st, I, args[0], args[1])
            return [(st, ('i', 0))]
        if callee in WIPE_FREE:
            bo = eng.base_of(args[0])
            if bo and st.ps.get(('dirty', bo[0])):
                self.stats["releases"].add((self.F.mod.tu, I.id))
                ok = True
                if callee in ("CRYPTO_clear_free", "CRYPTO_secure_clear_free"):
                    size = st.ps.get(('size', bo[0]))
                    nlo, _ = iv_hull(eng.rng(st, args[1]))
                    if size is not None and size != args[1]:
                        ok = nlo >= iv_hull(eng.rng(st, size))[1]
                    elif size is None:
                        ok = args[1] != ('i', 0)
                if not ok:
                    self.viol(eng, st, I, bo[0], "is released with only part of it overwritten")
                st.ps.pop(('dirty', bo[0]))
            return None
        if callee in FREE:
            bo = eng.base_of(args[0])
            if bo and args[0] != NULL:
                base = bo[0]
                if st.ps.get(('dirty', base)):
                    self.stats["releases"].add((self.F.mod.tu, I.id))
                    self.viol(eng, st, I, base, "is released without being overwritten")
                    st.ps.pop(('dirty', base))
                elif callee == "CRYPTO_free" and base[0] == 'd' and self.on:
                    ts = types_of(self.S, self.F, I.args[0])
                    if any(t in ts for t, o in self.S.fields):
                        self.stats["releases"].add((self.F.mod.tu, I.id))
                        miss = self.uncovered(eng, st, base, ts)
                        if miss:
                            t, o = miss[0]
                            self.viol(eng, st, I, base, "(struct %s) is released while its secret member at offset %d is "
                                      "not overwritten" % (t, o), nm="object")
            return None
        # functions that cleanse what an argument points to
        for i, offs in self.CLEAN.get(callee, {}).items():
            if i < len(args):
                bo = eng.base_of(args[i])
                if bo and isinstance(bo[1], int):
                    for o, n in offs.items():
                        self.wipe(eng, st, I, ('p', bo[0], bo[1] + o), ('i', n))
                    if st.ps.get(('dirty', bo[0])):
                        ts = types_of(self.S, self.F, I.args[i])
                        if not self.uncovered(eng, st, bo[0], ts) and any(t in ts for t, o in self.S.fields):
                            st.ps.pop(('dirty', bo[0]))
                    st.ps[('wiped', I.id, i)] = 1
        return None
    def viol(self, eng, st, I, base, what, nm=None):
        nm = nm or self.name(base)
        self.reports.setdefault(
            (self.F.name, nm, what), Report("secret-not-wiped", "%s:%s:%s" % (self.F.mod.tu, self.F.name, nm), I.where(),
            "%s, which holds secret material, %s" % (nm, what), fmt_path(st.path())))
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None or callee.startswith("llvm.") or callee in WIPE_FREE or callee in FREE:
            return
        if callee in ("CRYPTO_malloc", "CRYPTO_zalloc", "CRYPTO_secure_malloc") and val is not None and val[0] == 'p':
            st.ps[('size', val[1])] = args[0]
        elif val is not None and val[0] == 'p' and val[1][0] == 'h' and not self.secure(val[1]) and ok is not False \
                and not callee.endswith("_new"):
            self.dirty(eng, st, val[1])
        if ok is False:
            return
        F = self.prog.fn.get(callee)
        from api import API
        A = API.get(callee)
        for i, a in enumerate(args):
            bo = eng.base_of(a) if a[0] == 'p' else None
            if bo is None or self.root_of(bo[0]) is None:
                continue
            if st.ps.pop(('wiped', I.id, i), None):
                continue
            if F is not None:
                t = F.argt[i] if i < len(F.argt) else ""
                w = not t.startswith("const ")
                if w and i in self.CLEAN.get(callee, {}):
                    w = False
            elif A is not None:
                w = i in A.out or callee in COPY and COPY[callee][1] == i or callee in VIEW and i in VIEW[callee][1:] or \
                    i == 0 and callee.startswith("BN_") and ("rand" in callee or "mod" in callee or
                                                             callee in ("BN_mul", "BN_add", "BN_sub", "BN_copy"))
            else:
                w = True
            if w and self.secure(bo[0]):
                w = False
            if w and callee in COUNT and COUNT[callee][0] == i:
                self.dirty(eng, st, bo[0])
                st.ps[('dirty', bo[0])] += (args[COUNT[callee][1]],)
            elif w:
                self.dirty(eng, st, bo[0])
        if I.id in self.outs and ok is not False:
            a = self.outs[I.id]
            c = st.mem.get((('a', a), 0))
            if c and c[1][0] == 'p' and c[1][1][0] == 'h':
                self.dirty(eng, st, c[1][1])
    def secure(self, base):
        if base[0] != 'h':
            return False
        i = base[1]
        while isinstance(i, tuple):
            i = i[-1]
        I = self.F.ins.get(i)
        return I is not None and (I.callee in SECURE or I.callee in self.S.secure_rets)
    def fail_range(self, callee, I):
        G = self.prog.fn.get(callee)
        k = ret_consts(G) if G is not None else None
        if k and max(k) > 0 and min(k) <= 0:
            return (min(k), 0), (1, max(k))
        return (-2, 0), (1, 2**31 - 1)
    def ret(self, eng, st, I, val):
        self.stats["returns"].add((self.F.mod.tu, self.F.name))
        for k in list(st.ps):
            if isinstance(k, tuple) and k[0] == 'dirty' and k[1][0] == 'a':
                self.viol(eng, st, I, k[1], "is not overwritten when the function returns")
        for base in {k[1] for k in st.ps if isinstance(k, tuple) and k[0] == 'cl' and k[1][0] == 'd' and k[1][1][0] == 'arg'}:
            if any(isinstance(k, tuple) and k[0] == 'dirty' and k[1] == base for k in st.ps):
                continue
            ts = types_of(self.S, self.F, ('v', self.F.args[base[1][1]][0]))
            have = {(t, o) for t, o in self.S.fields if t in ts}
            miss = self.uncovered(eng, st, base, ts)
            # a function that only overwrites parts of an object is its destructor
            if self.destructor and have and miss and len(miss) < len(have):
                self.viol(eng, st, I, base, "(struct %s) is wiped except for its secret member at offset %d" % miss[0],
                          nm="object")
        cl = {}
        for i, (aid, nm, t) in enumerate(self.F.args):
            if t != "ptr":
                continue
            base = ('d', ('arg', i))
            if st.con.get(('arg', i)) == ((0, 0),):
                cl[i] = None
                continue
            cl[i] = {k[2]: iv_hull(eng.rng(st, n))[0] for k, n in st.ps.items()
                     if isinstance(k, tuple) and k[0] == 'cl' and k[1] == base and iv_hull(eng.rng(st, n))[0] > 0}
        if self.clean is None:
            self.clean = cl
        else:
            for i, d in cl.items():
                if d is None:
                    continue
                if self.clean.get(i) is None:
                    self.clean[i] = d
                else:
                    self.clean[i] = {o: min(n, d[o]) for o, n in self.clean[i].items() if o in d}

def summaries(P, S):
    """what functions cleanse of their arguments on every path"""
    C = {}
    cand = [F for F in P.roots() if any(I.op == "call" and I.callee == "OPENSSL_cleanse" for b in F.order for I in F.blocks[b])]
    WipeCheck.CLEAN = {}
    for rnd in range(3):
        new = {}
        for F in cand:
            try:
                ck, e = attempt(P, F, WipeCheck)
            except AnalysisError:
                continue
            d = {i: o for i, o in (ck.clean or {}).items() if o}
            if d:
                new[F.name] = d
        WipeCheck.CLEAN = new
        cand2 = [F for F in P.roots() if any(I.op == "call" and (I.callee == "OPENSSL_cleanse" or I.callee in new)
                                             for b in F.order for I in F.blocks[b])]
        if cand2 == cand:
            break
        cand = cand2
    return WipeCheck.CLEAN

@functools.lru_cache(None)
def program():
    return Program(mode="raw")

def methods(S):
    """objects of key methods that hold keys: the cleanup of the method, and the release of its keys"""
    P = S.P
    out, n = [], 0
    for m in P.mods:
        for F in m.fns.values():
            for b in F.order:
                init = clean = None
                cur = {}
                for I in F.blocks[b]:
                    if I.op != "call":
                        continue
                    if I.callee == "EVP_PKEY_meth_set_init" and I.args[1][0] == 'f':
                        init = I.args[1][1]
                    if I.callee == "EVP_PKEY_meth_set_cleanup" and I.args[1][0] == 'f':
                        clean = (I.args[1][1], I)
                if init and clean:
                    G, H = P.fn.get(init), P.fn.get(clean[0])
                    if G is None or H is None:
                        continue
                    ts, size = set(), None
                    for bb in G.order:
                        for J in G.blocks[bb]:
                            if J.op == "call" and J.callee == "EVP_PKEY_CTX_set_data":
                                ts |= types_of(S, G, J.args[1])
                                for r in S.fn[id(G)].root(J.args[1]):
                                    if r[0] == 'c':
                                        K = G.ins[r[1]]
                                        if K.callee in ("CRYPTO_malloc", "CRYPTO_zalloc") and K.args[0][0] == 'i':
                                            size = K.args[0][1]
                    if not any(t in ts for t, o in S.fields):
                        continue
                    n += 1
                    yield H, ts, size

def c08(tier="quick"):
    P = program()
    S = Secrets(P)
    WipeCheck.S, WipeCheck.EXT = S, Extents(S)
    C = summaries(P, S)
    roots = []
    for F in P.roots():
        s = S.fn[id(F)]
        has = any(r[0] in ('a', 'c', 'ld') for r in s.sec)
        frees = any(I.op == "call" and I.callee in FREE for b in F.order for I in F.blocks[b])
        wipes = any(I.op == "call" and I.callee == "OPENSSL_cleanse" for b in F.order for I in F.blocks[b])
        if has or frees or wipes:
            roots.append(F)
    reps, st, err, slow = run_all(P, lambda P, F: attempt(P, F, WipeCheck), roots)
    R = Result()
    # contexts of key methods
    nm = 0
    seen = set()
    for H, ts, size in methods(S):
        nm += 1
        if H.name in seen:
            continue
        seen.add(H.name)
        for b in H.order:
            for I in H.blocks[b]:
                if I.op == "call" and I.callee in ("CRYPTO_free", "CRYPTO_clear_free"):
                    src = [H.ins[r[1]].callee for r in S.fn[id(H)].root(I.args[0]) if r[0] == 'c']
                    if "EVP_PKEY_CTX_get_data" not in src:
                        continue
                    if I.callee == "CRYPTO_free" or not (I.args[1][0] == 'i' and size is not None and I.args[1][1] >= size):
                        reps.append(Report("secret-not-wiped", "%s:%s:method data" % (H.mod.tu, H.name), I.where(),
                                           "the context of a key method that holds a key is released without overwriting "
                                           "all of it"))
    # keys handed over to EVP_PKEY
    handed, sizes = 0, []
    for s in S.fn.values():
        for b in s.F.order:
            for I in s.F.blocks[b]:
                if I.op == "call" and I.callee == "EVP_PKEY_assign":
                    for r in s.root(I.args[2]):
                        if r[0] == 'c' and r in s.sec and s.F.ins[r[1]].callee == "CRYPTO_malloc":
                            a = s.F.ins[r[1]].args[0]
                            handed += 1
                            sizes.append(a[1] if a[0] == 'i' else None)
    nf = 0
    for n, rl in roles.roles(tables.program()).items():
        H = P.fn.get(n)
        if "ameth.free" not in rl or H is None:
            continue
        for b in H.order:
            for I in H.blocks[b]:
                if I.op == "call" and I.callee in ("CRYPTO_free", "CRYPTO_clear_free"):
                    nf += 1
                    if I.callee == "CRYPTO_free" or None in sizes or not sizes or \
                            not (I.args[1][0] == 'i' and I.args[1][1] >= max(sizes)):
                        reps.append(Report("secret-not-wiped", "%s:%s:key" % (H.mod.tu, H.name), I.where(),
                                           "a key is released without overwriting all of it"))
    R.reports += sorted(reps, key=lambda r: (r.key, r.where))
    R.undecided += err
    R.coverage["abstract_steps"] = st.get("steps", 0)
    R.coverage["explanation"] = ("Secret objects are found by a fixpoint from key arguments of key-setting primitives, private "
        "numbers and decryption results; every path of every function holding one must overwrite it with a call the "
        "compiler cannot drop before returning or releasing it, completely and after the last write.")
    R.floor("secret objects", len(st.get("objects", ())), 20)
    R.floor("key positions and copies", len(S.sites), 60)
    R.floor("secret structure members", len(S.fields), 5)
    R.floor("overwriting calls", len(st.get("wipes", ())), 25)
    R.floor("releases of secret objects", len(st.get("releases", ())), 5)
    R.floor("functions", len(roots), 30)
    R.floor("method contexts holding keys", nm, 2)
    R.floor("releases of handed over keys", nf, 1)
    R.coverage["functions that cleanse arguments"] = sorted(C)
    R.assumptions += SHARED[1:] + ["Contexts owned by EVP are overwritten by EVP itself when they are released.",
                                   "Keys of the hash step function are not secret."]
    return R
