"""Failures are never reported as success."""
from engine import Checker, Engine, NULL, iv_and, Budget
from api import API
from common import Report, fmt_path
import conv as CV

FALL = ("b", "s", "n", "l0", "len", "p", "q", "z", "cipher")

# the caller of these callbacks takes every value but zero for success
NZ = {"cipher.init", "cipher.do", "digest.init", "digest.update", "digest.final", "digest.copy", "ameth.priv_decode",
      "ameth.pub_decode", "ameth.pub_encode", "ameth.priv_encode", "ameth.param_decode", "ameth.param_copy"}
S = {"cipher.ctrl", "digest.ctrl", "cipher.set_asn1_parameters", "cipher.get_asn1_parameters", "ameth.ctrl", "ameth.pub_cmp"}
SKIP = {"ameth.param_missing", "ameth.param_cmp", "ameth.pkey_size", "ameth.pkey_bits", "ameth.security_bits",
        "engine.ciphers", "engine.digests", "engine.pkey_meths", "engine.pkey_asn1_meths"}

# a failing call is made good by a later success of another one
ALTERNATIVE = {"OSSL_PARAM_set_octet_string": {"OSSL_PARAM_set_octet_ptr"},
               "OSSL_PARAM_set_octet_ptr": {"OSSL_PARAM_set_octet_string"},
               "OSSL_PARAM_get_octet_string": {"OSSL_PARAM_get_octet_string_ptr"}}

def rc_of(P, F, roles):
    rs = roles.get(F.name, ())
    if F.ret not in ("i32", "ptr"):
        return None
    for r in rs:
        if r in SKIP:
            return None
        if r in NZ or r.startswith("prov."):
            return "nz" if F.ret == "i32" else "p"
        if r == "cipher.do_custom":
            return "n"
        if r in S or r.startswith("pmeth."):
            return "s"
    c = CV.conv(P, F.name)
    return None if c in (None, "v", "i") else c.split(":")[0]

class ErrCheck(Checker):
    ROLES = {}
    EXEMPT = {}
    def __init__(self, prog, F, rc=None):
        super().__init__()
        self.prog, self.F = prog, F
        self.roles = self.ROLES.get(F.name, ())
        self.rc = rc or rc_of(prog, F, self.ROLES)
        self.stats = {"sites": set()}
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        c = CV.conv(self.prog, callee)
        return CV.RANGES[c.split(":")[0]]
    def tolerated(self, eng, st, callee, args):
        for (root, name, pos, const), why in self.EXEMPT.items():
            if name == callee and root in (None, self.F.name, self.F.mod.tu) and \
                    (pos is None or (pos < len(args) and args[pos] == ('i', const))):
                return why
        return None
    def after(self, eng, st, I, callee, args, val, ok):
        if ok is None or callee is None:
            return
        self.stats["sites"].add((self.F.name, callee, I.id))
        f = st.ps.get("fail")
        if ok is True and f and f[1] in ALTERNATIVE.get(callee, ()):
            del st.ps["fail"]
        if ok is False and "fail" not in st.ps:
            if self.tolerated(eng, st, callee, args):
                return
            st.ps["fail"] = ("site", callee, I.id)
    def ret(self, eng, st, I, val):
        f = st.ps.get("fail")
        if f is None or val is None:
            return
        rc = self.rc
        if rc == "s" and "cipher.ctrl" in self.roles and eng.rng(st, ('s', ('arg', 1))) == ((8, 8),):
            rc = "nz"                 # EVP_CTRL_COPY: EVP_CIPHER_CTX_copy tests for zero only
        r = eng.rng(st, val) if val[0] not in ('u', 'x') else ((-1 << 70, 1 << 70),)
        if rc in ("p", "q", "g", "nz"):
            succ = iv_and(r, ((1, 1 << 71), )) or iv_and(r, ((-1 << 71, -1),))
        elif rc == "z":
            succ = iv_and(r, ((0, 0),))
        elif rc == "n":
            succ = iv_and(r, ((0, 1 << 71),))
        elif rc in ("s", "b", "len", "l0"):
            succ = iv_and(r, ((1, 1 << 71),))
        else:
            return
        if succ:
            J = None
            for b in self.F.order:
                for K in self.F.blocks[b]:
                    if K.id == f[2]:
                        J = K
            key = (self.F.name, J.fn, f[1])
            if key not in self.reports:
                self.reports[key] = Report("ignored-failure", "%s/%s/%s" % (self.F.name, J.fn, f[1]), J.where(),
                                           "%s() returns success although %s() failed" % (self.F.name, f[1]),
                                           fmt_path(st.path(14)))
