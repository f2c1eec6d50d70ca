"""A pointer that may legitimately be absent is never dereferenced unchecked."""
from engine import Checker, Engine, NULL, mentions, SETGET
from api import API
from common import Report, fmt_path
import conv as CV
from c03 import FALL

# external functions that crash when the listed pointer arguments are NULL (OpenSSL 3.0, libc)
NN_TABLE = """
BN_num_bits 0; BN_bn2bin 0 1; BN_bn2lebinpad 0 1; BN_bn2binpad 0 1; BN_ucmp 0 1; BN_is_zero 0; BN_is_one 0
BN_is_negative 0; BN_mod_mul 0 1 2 3 4; BN_mod_add 0 1 2 3 4; BN_mod_sub 0 1 2 3 4; BN_nnmod 0 1 2 3; BN_mod_inverse 1 2
BN_div 2 3; BN_copy 0 1; BN_rand_range 0 1; BN_priv_rand_range 0 1; BN_set_word 0; BN_sub 0 1 2; BN_add 0 1 2; BN_mul 0 1 2 3
BN_CTX_start 0; BN_CTX_get 0; BN_print 0 1; BN_bin2bn 0; BN_lebin2bn 0
EC_KEY_get0_group 0; EC_KEY_get0_private_key 0; EC_KEY_get0_public_key 0; EC_KEY_set_group 0; EC_KEY_set_private_key 0
EC_KEY_set_public_key 0; EC_GROUP_get0_order 0; EC_GROUP_get_order 0; EC_GROUP_get_curve_name 0; EC_GROUP_set_curve_name 0
EC_GROUP_get0_field 0; EC_POINT_get_affine_coordinates 0 1; EC_POINT_set_affine_coordinates 0 1; EC_POINT_cmp 0 1 2
EC_POINT_mul 0 1; EC_POINT_set_to_infinity 0 1; EC_GROUP_set_generator 0
ECDSA_SIG_get0 0; ECDSA_SIG_set0 0
ASN1_STRING_length 0; ASN1_STRING_get0_data 0; ASN1_STRING_set 0; ASN1_OCTET_STRING_set 0; ASN1_TYPE_set 0; ASN1_TYPE_get 0
X509_ALGOR_get0 3; X509_PUBKEY_get0_param 4; EVP_PKEY_get_id 0; EVP_PKEY_get_base_id 0; EVP_PKEY_missing_parameters 0
EVP_CIPHER_CTX_get_cipher_data 0; EVP_CIPHER_CTX_set_flags 0; EVP_CIPHER_CTX_ctrl 0
EVP_CIPHER_CTX_get_iv_length 0; EVP_CIPHER_CTX_get_key_length 0; EVP_CIPHER_CTX_set_padding 0; EVP_CIPHER_CTX_set_num 0
EVP_CIPHER_get_iv_length 0; EVP_CIPHER_get_key_length 0; EVP_CIPHER_get_block_size 0; EVP_CIPHER_get_flags 0
EVP_EncryptInit_ex 0; EVP_DecryptInit_ex 0; EVP_CipherInit_ex 0; EVP_CipherUpdate 0; EVP_CipherFinal 0; EVP_CipherFinal_ex 0; EVP_Cipher 0
EVP_DigestInit_ex 0; EVP_DigestUpdate 0; EVP_DigestFinal_ex 0; EVP_DigestSignInit 0; EVP_DigestSignUpdate 0; EVP_DigestSignFinal 0
EVP_MD_CTX_set_flags 0; EVP_MD_CTX_ctrl 0; EVP_MD_CTX_get0_md_data 0
EVP_MD_get_type 0; EVP_MD_get_block_size 0
CMAC_Init 0; CMAC_Update 0; CMAC_Final 0; CMAC_CTX_copy 0 1; HMAC_Init_ex 0; HMAC_Update 0; HMAC_Final 0
strlen 0; strcmp 0 1; strncmp 0 1; strcpy 0 1; strchr 0; strrchr 0; strtol 0; atoi 0; fclose 0; fread 3; fgets 2; feof 0
memcmp 0 1; CRYPTO_memcmp 0 1; BUF_reverse 0; X509_PUBKEY_set0_param 0; PKCS8_pkey_set0 0; OBJ_add_object 0
"""
NN = {}
for part in NN_TABLE.replace("\n", ";").split(";"):
    p = part.split()
    if p:
        NN[p[0]] = [int(x) for x in p[1:]]

# external getters whose result may be absent for a caller-supplied object
NULLABLE = {"EC_KEY_get0_private_key", "EC_KEY_get0_public_key", "EC_KEY_get0_group", "EVP_PKEY_get0",
            "EVP_PKEY_CTX_get0_peerkey", "X509at_get0_data_by_OBJ", "OBJ_nid2sn",
            "OBJ_nid2ln", "getenv", "strchr", "strrchr", "fgets", "CMS_RecipientInfo_get0_pkey_ctx",
            "gost_get0_priv_key", "get_encryption_params", "EVP_MD_get0_name",
            "get_gost_engine_param", "EVP_CIPHER_CTX_get0_cipher"}
# outputs that are always present when the call succeeds
PRESENT = {"X509_ALGOR_get0": (0,), "X509_PUBKEY_get0_param": (0, 3), "PKCS8_pkey_get0": (0, 3),
           "CMS_RecipientInfo_kari_get0_alg": (1,), "CMS_RecipientInfo_ktri_get0_algs": (1, 3),
           "CMS_SignerInfo_get0_algs": (3, 4), "PKCS7_SIGNER_INFO_get0_algs": (2, 3), "PKCS7_RECIP_INFO_get0_alg": (1,)}
# output -> (output that tells whether it is present, values meaning absent)
PAIRED = {"X509_ALGOR_get0": {2: (1, (-1, 5))}, "PKCS8_pkey_get0": {1: (2, (0,))}, "X509_PUBKEY_get0_param": {1: (2, (0,))}}
# calls that fail cleanly when the argument is absent: success implies it is there
IMPLIES = {"EC_POINT_new": (0,), "EVP_PKEY_up_ref": (0,), "EC_POINT_dup": (0, 1)}
# struct members (struct, offset) that may be absent
NULLABLE_FIELD = {("X509_algor_st", 8)}

def optional_fields(prog):
    """(type, offset) of OPTIONAL members, from the ASN.1 templates compiled into the library"""
    r = {}
    for m in prog.mods:
        for n, g in m.globals.items():
            if n.endswith("_seq_tt") and "init" in g and g["init"]["k"] == "arr":
                for e in g["init"]["e"]:
                    if isinstance(e, dict) and e["k"] == "struct":
                        fl = e["e"][0].get("v", 0) if e["e"][0]["k"] == "c" else 0
                        off = e["e"][2].get("v", 0) if e["e"][2]["k"] == "c" else 0
                        r[(n[:-7], off)] = bool(fl & 1)
    return r

class NullCheck(Checker):
    POST = {}
    FIELDS = set(NULLABLE_FIELD)
    def __init__(self, prog, F, nnargs=None, opt=None):
        super().__init__()
        self.prog, self.F = prog, F
        self.nnargs = nnargs or {}
        self.opt = opt or {}
        self.mine = set()
        self.stats = {"deref_sites": set(), "nullable_sources": set()}
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        c = CV.conv(self.prog, callee)
        return CV.RANGES[c.split(":")[0]]
    weak = True
    def after(self, eng, st, I, callee, args, val, ok):
        if callee in NULLABLE and ok is None and val is not None:
            self.stats["nullable_sources"].add((self.F.name, callee, I.id))
            if val[0] == 'p' and val[1][0] == 'd':
                self.nullable.setdefault(val[1][1], callee)
        A = API.get(callee)
        if A is not None:
            for i in A.outp:
                if i not in PRESENT.get(callee, ()):
                    self.nullable.setdefault(('out', I.id, i), callee)
            if ok is not False and (ok or val is not None and not any(lo <= 0 <= hi for lo, hi in eng.rng(st, val))):
                for i in IMPLIES.get(callee, ()):
                    if i < len(args) and args[i][0] == 'p' and args[i][1][0] == 'd':
                        eng.refine(st, ('s', args[i][1][1]), ((-(1 << 70), -1), (1, 1 << 70)))
            if ok is not False and callee == "EVP_PKEY_copy_parameters":
                for a in args[:2]:
                    eng.refine(st, ('s', ('get', 'EVP_PKEY_get0', a)), ((-(1 << 70), -1), (1, 1 << 70)))
            for i in NN.get(callee, ()):
                if i < len(args):
                    self.deref(eng, st, I, args[i], callee)
        elif ok is not False and callee in self.POST:
            for g, i in self.POST[callee]:
                if i < len(args):
                    n = ('get', g, args[i])
                    eng.symw.setdefault(n, 64)
                    st.con[n] = ((1, 1 << 70),)
        if A is None and callee in self.nnargs:
            for i in self.nnargs[callee]:
                if i < len(args):
                    self.deref(eng, st, I, args[i], callee)
    def start(self, eng, st):
        self.nullable = {}
        self.eng = eng
    def src(self, S, st=None):
        """what makes the symbol nullable, or None"""
        r = self.nullable.get(S)
        if S[0] == 'out' and st is not None and S[2] in PAIRED.get(r, {}):
            # the value is present unless its type or length says otherwise
            i, absent = PAIRED[r][S[2]]
            k = st.con.get(('out', S[1], i))
            if k is not None and not any(lo <= x <= hi for x in absent for lo, hi in k):
                return None
        if r == 'EVP_PKEY_get0' or (S[0] == 'get' and S[1] == 'EVP_PKEY_get0'):
            x = S[2][1] if S[0] == 'get' and S[2][0] == 'p' else None
            if x is not None and x[0] == 'h' and self.F.ins.get(x[1]) is not None and \
                    self.F.ins[x[1]].callee == "X509_PUBKEY_get":
                return None           # decoded by the key type's own decoder
            c = x[1] if x is not None and x[0] == 'd' else None
            if c is not None and c[0] == 'get' and c[1] == "EVP_PKEY_CTX_get0_peerkey":
                return None           # OpenSSL compared its parameters with the key's when it was set
            if c is not None and c[0] == 'get' and c[1] == "EVP_PKEY_CTX_get0_pkey" and st is not None:
                k = st.con.get(('get', "EVP_PKEY_CTX_get0_peerkey") + c[2:])
                if k is not None and not any(lo <= 0 <= hi for lo, hi in k):
                    return None
        if r:
            return r
        if S[0] == 'get' and S[1] in NULLABLE:
            return S[1]
        if S[0] == 'o':
            return self.src(S[1], st) if isinstance(S[1], tuple) else None
        if S[0] == 'm' and isinstance(S[2], int) and S[3] == 8:
            base = S[1]
            if base[0] == 'h':
                J = self.F.ins.get(base[1]) if not isinstance(base[1], tuple) else None
                if J is not None and J.callee and J.callee.startswith("d2i_") and self.opt.get((J.callee[4:], S[2])):
                    return "optional field of " + J.callee[4:]
            t = self.ftype.get((base, S[2])) if hasattr(self, "ftype") else None
            if t in self.FIELDS:
                return "%s+%d" % t
        return None
    def deref(self, eng, st, I, ptr, what):
        self.stats["deref_sites"].add((self.F.name, I.id))
        if ptr == NULL:
            return self.rep(eng, st, I, "NULL", what)
        b = eng.base_of(ptr)
        if b is None:
            return
        if b[0] == ('d', ('nul',)):
            return self.rep(eng, st, I, "NULL", what)
        if b[0][0] != 'd':
            return
        S = b[0][1]
        r = eng.rng(st, ('s', S))
        if not any(lo <= 0 <= hi for lo, hi in r):
            return
        if S[0] == 'arg':
            self.mine.add(S[1])
            return
        s = self.src(S, st)
        if s:
            self.rep(eng, st, I, s, what)
            # one report is enough: assume it from here on
            eng.refine(st, ('s', S), ((-(1 << 70), -1), (1, 1 << 70)))
    def load(self, eng, st, I, ptr, size):
        g = self.F.ins.get(I.j["a"][0].get("i")) if I.j["a"][0]["k"] == "v" else None
        if g is not None and g.op == "getelementptr" and not g.j["vo"]:
            b = eng.base_of(ptr)
            if b is not None and isinstance(b[1], int):
                t = g.j.get("st", "").replace("%struct.", "").split(" ")[0]
                if (t, g.j["o"]) in self.FIELDS:
                    if not hasattr(self, "ftype"):
                        self.ftype = {}
                    self.ftype[(b[0], b[1])] = (t, g.j["o"])
        self.deref(eng, st, I, ptr, "load")
    def store(self, eng, st, I, ptr, val, size):
        self.deref(eng, st, I, ptr, "store")
    def access(self, eng, st, I, ptr, size, kind, what):
        if size != ('i', 0):
            r = eng.rng(st, size)
            if not any(lo <= 0 <= hi for lo, hi in r):
                self.deref(eng, st, I, ptr, what)
    def ret(self, eng, st, I, val):
        if val is None:
            return
        rc = (CV.conv(self.prog, self.F.name) or "i").split(":")[0]
        r = eng.rng(st, val) if val[0] not in ('u', 'x') else ()
        if any(hi > 0 for lo, hi in r) and rc in ("b", "s", "p", "l0"):
            here = {(k[1], k[2][1][1][1]) for k, v in st.con.items()
                    if k[0] == 'get' and len(k) == 3 and k[2][0] == 'p' and k[2][1][0] == 'd' and k[2][1][1][0] == 'arg'
                    and k[2][2] == 0 and not any(lo <= 0 <= hi for lo, hi in v)}
            self.post = here if not hasattr(self, "post") else self.post & here
    def rep(self, eng, st, I, src, what):
        key = ("null", self.F.name, I.fn, src, what)
        if key not in self.reports:
            self.reports[key] = Report("null-dereference", "%s/%s/%s/%s" % (self.F.name, I.fn, src, what), I.where(),
                                       "possibly absent pointer (%s) is dereferenced by %s" % (src, what), fmt_path(st.path(14)))

def relevant(P, F):
    """does the function handle a pointer that can be absent?"""
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "call" and I.callee:
                A = API.get(I.callee)
                if I.callee in NULLABLE or I.callee in NN or (A is not None and (A.outp or A.ret in "pq")):
                    return True
                if A is None and (CV.conv(P, I.callee) or "")[:1] in ("p", "g", "q"):
                    return True
    return False

def summaries(P):
    """what the repository's own setters establish about their arguments when they succeed"""
    NullCheck.FIELDS = set(NULLABLE_FIELD) | {k for k, v in optional_fields(P).items() if v}
    NullCheck.POST = {}
    for F in P.roots():
        if F.local or F.ret != "i32":
            continue
        if any(I.op == "call" and I.callee in SETGET for b in F.order for I in F.blocks[b]):
            ck = NullCheck(P, F)
            Engine(F, P, ck, cap=3000).run()
            if getattr(ck, "post", None):
                NullCheck.POST[F.name] = ck.post
