"""What is computed: signatures and keys as symbolic terms (C01, C02).

Every big number and every curve point on a path carries a term: a polynomial over the group order q whose
unknowns are the inputs (digest, halves of the signature, private key, random draws, point coordinates).  The
acceptance conditions are read off the tests that dominate a success return."""
from engine import Checker, Engine, NULL
from api import API
from common import Report, fmt_path, run_all
from check import Result
import conv as CV, roles, tables
from flow import attempt, SHARED

# ---- polynomials modulo the order: frozenset of (monomial, coefficient); monomial: sorted tuple of (atom, exponent)
def const(n):
    return frozenset() if n == 0 else frozenset({((), n)})
def atom(a):
    return frozenset({(((a, 1),), 1)})
def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return frozenset((m, c) for m, c in d.items() if c)
def pmul(p, q):
    d = {}
    for m1, c1 in p:
        for m2, c2 in q:
            e = dict(m1)
            for a, x in m2:
                e[a] = e.get(a, 0) + x
            m = tuple(sorted(((a, x) for a, x in e.items() if x), key=repr))
            d[m] = d.get(m, 0) + c1 * c2
    return frozenset((m, c) for m, c in d.items() if c)
def pinv(p):
    if len(p) == 1:
        (m, c), = p
        if c in (1, -1):
            return frozenset({(tuple((a, -x) for a, x in m), c)})
    return atom(('inv', p))
def pmod(p, q):
    """drop the terms with a factor q (the atom of the order itself)"""
    return frozenset((m, c) for m, c in p if (q, 1) not in m)
def atoms(p):
    return {a for m, _ in p for a, _ in m}
def show(p):
    def a2(a):
        if a[0] == 'x': return "x(%s)" % (", ".join(show(t) if t is not None else "-" for t in (a[1][1], a[1][3])) if a[1][0] == 'mul' else "?")
        return a[0] if a[0] != 'obj' else "v"
    return " + ".join(("" if c == 1 else str(c) + "*") + "*".join(a2(a) + ("" if x == 1 else "^%d" % x) for a, x in m)
                      for m, c in sorted(p, key=repr)) or "0"

BINOPS = {"BN_mod_add": lambda a, b: padd(a, b), "BN_mod_sub": lambda a, b: padd(a, b, -1), "BN_mod_mul": pmul,
          "BN_add": lambda a, b: padd(a, b), "BN_sub": lambda a, b: padd(a, b, -1), "BN_mul": pmul,
          "BN_uadd": lambda a, b: padd(a, b), "BN_usub": lambda a, b: padd(a, b, -1)}
READERS = {"BN_num_bits", "BN_bn2bin", "BN_bn2lebinpad", "BN_bn2binpad", "BN_is_odd", "BN_is_bit_set", "BN_get_word",
           "BN_print", "BN_free", "BN_clear_free", "BN_security_bits", "BN_is_word", "BN_bn2hex", "BN_bn2dec", "BN_abs_is_word",
           "BN_set_flags", "BN_get_flags", "BN_rand_range", "BN_check_prime", "BN_CTX_end", "BN_CTX_free", "BN_CTX_start"}
DRAWS = {"BN_rand_range", "BN_priv_rand_range", "BN_rand_range_ex", "BN_priv_rand_range_ex"}

def point_form(argt):
    """(result, n, q, m) argument positions of a curve multiplication, from its parameter types"""
    t = [x.replace("struct ", "") for x in argt]
    if len(t) < 3 or "EC_GROUP" not in t[0] or t[1].replace(" ", "") != "EC_POINT*":
        return None
    rest = ["B" if "BIGNUM" in x else "P" if "EC_POINT" in x else "C" if "BN_CTX" in x else "?" for x in t[2:]]
    f = "".join(rest)
    return {"BPBC": (1, 2, 3, 4), "BC": (1, 2, None, None), "PBC": (1, None, 2, 3)}.get(f)

class TermCheck(Checker):
    weak = False
    def __init__(self, prog, F):
        super().__init__()
        self.prog, self.F = prog, F
        self.stats = {"obligations": set()}
        self.accepts = 0
        self.draws = 0
        self.keys = 0
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        from c03 import FALL
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        return CV.RANGES[CV.conv(self.prog, callee).split(":")[0]]
    # -- terms
    def base(self, v):
        if v[0] == 'p' and v[2] == 0:
            return v[1]
        if v[0] == 's':
            return ('d', v[1])
        return None
    def bn(self, st, v):
        """(polynomial, reduced modulo q)"""
        b = self.base(v)
        if b is None:
            return atom(('x?',)), False
        t = st.ps.get(('bn', b))
        if t is not None:
            return t[1], t[2]
        if b[0] == 'd' and b[1][0] == 'get' and b[1][1] == "EC_GROUP_get0_order":
            return atom(('q',)), False
        return atom(('obj', b)), False
    def setbn(self, st, v, poly, red):
        b = self.base(v)
        if b is not None:
            if len(poly) > 12 or len(repr(poly)) > 2500:
                poly = atom(('big',))
            st.ps[('bn', b)] = ('t', poly, red)
    def isq(self, st, v):
        return self.bn(st, v)[0] == atom(('q',))
    def pt(self, st, v):
        b = self.base(v)
        t = st.ps.get(('pt', b))
        return t[1] if t is not None else ('pt', b)
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is None or ok is False:
            return
        n = callee
        F = self.prog.fn.get(callee)
        pf = (1, 2, 3, 4) if n == "EC_POINT_mul" else \
            self.forms.get(n) or (point_form(F.argt) if F is not None and callee not in API else None)
        if pf is not None and len(args) > max(x for x in pf if x is not None):
            r, a, q, m = (args[x] if x is not None else NULL for x in pf)
            t = ('mul', self.bn(st, a)[0] if a != NULL else None,
                 self.pt(st, q) if q != NULL and m != NULL else None, self.bn(st, m)[0] if m != NULL else None)
            b = self.base(r)
            if b is not None:
                st.ps[('pt', b)] = ('t', t)
            return
        if n in ("EC_POINT_get_affine_coordinates", "EC_POINT_get_affine_coordinates_GFp"):
            t = self.pt(st, args[1])
            if args[2] != NULL: self.setbn(st, args[2], atom(('x', t)), False)
            if args[3] != NULL: self.setbn(st, args[3], atom(('y', t)), False)
            return
        if n == "EC_GROUP_get_order":
            return self.setbn(st, args[1], atom(('q',)), False)
        if n == "EC_GROUP_get_cofactor":
            return self.setbn(st, args[1], atom(('h',)), False)
        if n == "ECDSA_SIG_get0":
            for i, w in ((1, 'r'), (2, 's')):
                if args[i][0] == 'p' and isinstance(args[i][2], int):
                    c = st.mem.get((args[i][1], args[i][2]))
                    if c is not None:
                        self.setbn(st, c[1], atom(('sig' + w, args[0])), False)
            return
        if n in ("ECDSA_SIG_get0_r", "ECDSA_SIG_get0_s"):
            if val is not None:
                self.setbn(st, val, atom(('sig' + n[-1], args[0])), False)
            return
        if n == "ECDSA_SIG_set0" and ok:
            st.ps[('sig', args[0])] = ('sig', self.bn(st, args[1]), self.bn(st, args[2]))
            # facts are remembered under the terms, which stay valid
            return
        if n == "EC_KEY_set_private_key":
            st.ps[('priv', args[0])] = ('k',) + self.bn(st, args[1])
            self.setkey(eng, st, I, args)
            return
        if n == "EC_KEY_set_public_key":
            st.ps[('pub', args[0])] = ('k', self.pt(st, args[1]))
            self.setpub(eng, st, I, args)
            return
        if n in ("BN_lebin2bn", "BN_bin2bn", "BN_native2bn"):
            a = atom(("le" if n != "BN_bin2bn" else "be", args[0], args[1]))
            if args[2] != NULL:
                self.setbn(st, args[2], a, False)
            if val is not None:
                self.setbn(st, val, a, False)
            return
        if n == "BN_dup" and val is not None:
            return self.setbn(st, val, *self.bn(st, args[0]))
        if n == "BN_copy":
            return self.setbn(st, args[0], *self.bn(st, args[1]))
        if n in ("BN_set_word",):
            return self.setbn(st, args[0], const(args[1][1]) if args[1][0] == 'i' else atom(('w', args[1])), args[1] in (('i', 0), ('i', 1)))
        if n in ("BN_zero_ex", "BN_clear"):
            return self.setbn(st, args[0], const(0), True)
        if n in ("BN_one",):
            return self.setbn(st, args[0], const(1), True)
        if n in ("BN_mod", "BN_nnmod", "BN_div"):
            r, a, m = args[0:3] if n != "BN_div" else (args[1], args[2], args[3])
            if n == "BN_div" and args[0] != NULL:
                self.setbn(st, args[0], atom(('div', self.bn(st, a)[0], self.bn(st, m)[0])), False)
            if r == NULL:
                return
            p, red = self.bn(st, a)
            if not self.isq(st, m):
                return self.setbn(st, r, atom(('mod', p, self.bn(st, m)[0])), False)
            p = pmod(p, ('q',))
            # the remainder of a negative number may be negative unless nnmod is used
            neg = n != "BN_nnmod" and any(c < 0 for _, c in p)
            return self.setbn(st, r, p, not neg)
        if n in BINOPS:
            mod = n.startswith("BN_mod_")
            p = BINOPS[n](self.bn(st, args[1])[0], self.bn(st, args[2])[0])
            if mod:
                if not self.isq(st, args[3]):
                    return self.setbn(st, args[0], atom(('mod', p, self.bn(st, args[3])[0])), False)
                p = pmod(p, ('q',))
            return self.setbn(st, args[0], p, mod)
        if n in ("BN_sqr", "BN_mod_sqr"):
            p = self.bn(st, args[1])[0]
            p = pmul(p, p)
            if n == "BN_mod_sqr":
                if not self.isq(st, args[2]):
                    return self.setbn(st, args[0], atom(('mod', p, self.bn(st, args[2])[0])), False)
                p = pmod(p, ('q',))
            return self.setbn(st, args[0], p, n != "BN_sqr")
        if n == "BN_mod_inverse":
            p = self.bn(st, args[1])[0]
            t = (pinv(pmod(p, ('q',))), True) if self.isq(st, args[2]) else (atom(('invmod', p, self.bn(st, args[2])[0])), False)
            if args[0] != NULL:
                self.setbn(st, args[0], *t)
            if val is not None and val[0] in 'ps':
                self.setbn(st, val, *t)
            return
        if n in DRAWS:
            rng = self.bn(st, args[1])[0]
            self.draws += 1
            return self.setbn(st, args[0], atom(('rand', I.id, 'q' if rng == atom(('q',)) else 'other')), rng == atom(('q',)))
        if n in ("BN_is_zero", "BN_is_negative", "BN_is_one"):
            p, red = self.bn(st, args[0])
            st.ps[('t', n, p)] = val
            return
        if n in ("BN_cmp", "BN_ucmp"):
            st.ps[('t', n, self.bn(st, args[0]), self.bn(st, args[1]))] = val
            return
        if n.startswith("BN_") and n not in READERS and args and args[0][0] in 'ps' and not n.startswith("BN_CTX") and \
                n not in ("BN_new", "BN_secure_new"):
            return self.setbn(st, args[0], atom(('unk', I.id)), False)
        if val is not None and callee not in API and F is not None and "ECDSA_SIG" in F.rett and val[0] == 'p':
            st.ps[('sigfrom', val[1])] = ('call', callee) + tuple(args)
    forms = {}
    # -- facts
    def fact(self, eng, st, kind, *terms):
        v = st.ps.get(('t', kind) + terms)
        return eng.rng(st, v) if v is not None else None
    def nonzero(self, eng, st, p):
        r = self.fact(eng, st, "BN_is_zero", p)
        return r is not None and r == ((0, 0),)
    def below_q(self, eng, st, p, red):
        """0 <= value < q is known"""
        if red:
            return True
        q = (atom(('q',)), False)
        neg = self.fact(eng, st, "BN_is_negative", p)
        for k in ("BN_cmp", "BN_ucmp"):
            r = self.fact(eng, st, k, (p, red), q)
            ok = r is not None and r[-1][1] < 0
            r = self.fact(eng, st, k, q, (p, red))
            ok = ok or (r is not None and r[0][0] > 0)
            if ok and neg == ((0, 0),):
                return True
        return False
    def bad(self, eng, st, I, rule, what):
        key = "%s/%s" % (self.F.name, rule)
        if key not in self.reports:
            self.reports[key] = Report(rule, key, I.where(), what, fmt_path(st.path(16)))
    def setkey(self, eng, st, I, args): pass
    def setpub(self, eng, st, I, args): pass

def argval(F, i):
    return ('p', ('d', ('arg', i)), 0)

class VerifyCore(TermCheck):
    """the function that decides about (digest, r, s, key)"""
    def __init__(self, prog, F):
        super().__init__(prog, F)
        t = [x.replace("const ", "").replace(" ", "") for x in F.argt]
        self.isig = t.index("ECDSA_SIG*")
        self.ikey = next((i for i, x in enumerate(t) if x == "EC_KEY*"), None)
        self.idg = next((i for i, x in enumerate(t) if x == "unsignedchar*"), None)
    def ret(self, eng, st, I, val):
        if val is None or not any(hi > 0 for lo, hi in eng.rng(st, val)):
            return
        self.accepts += 1
        sig = argval(self.F, self.isig)
        r, s = atom(('sigr', sig)), atom(('sigs', sig))
        for nm, p in (("r", r), ("s", s)):
            self.stats["obligations"].add((self.F.name, "range", nm))
            if not self.nonzero(eng, st, p):
                self.bad(eng, st, I, "zero-" + nm, "a signature is accepted without a test that %s is not zero" % nm)
            if not self.below_q(eng, st, p, False):
                self.bad(eng, st, I, "range-" + nm, "a signature is accepted without a test that %s is below the group order and not negative" % nm)
        self.stats["obligations"].add((self.F.name, "equality"))
        for k, v in list(st.ps.items()):
            if k[0] == 't' and k[1] in ("BN_cmp", "BN_ucmp") and eng.rng(st, v) == ((0, 0),):
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if b[0] == r and self.good(eng, st, a):
                        return
        self.bad(eng, st, I, "comparison", "a signature is accepted without the comparison of x(z1*G + z2*Q) mod q with r: " +
                 "; ".join("%s of %s and %s" % (k[1], show(k[2][0]), show(k[3][0])) for k in st.ps if k[0] == 't' and k[1] in ("BN_cmp", "BN_ucmp"))[:300])
    def good(self, eng, st, a):
        """a is x(z1*G + z2*Q) mod q, reduced"""
        p, red = a
        if not red or len(p) != 1:
            return False
        ((m, c),) = p
        if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][0] != 'x' or m[0][0][1][0] != 'mul':
            return False
        _, n, q, mm = m[0][0][1]
        if n is None or mm is None:
            return False
        n, mm = pmod(n, ('q',)), pmod(mm, ('q',))
        sig = argval(self.F, self.isig)
        pub = ('pt', ('d', ('get', 'EC_KEY_get0_public_key', argval(self.F, self.ikey))))
        if q != pub:
            return False
        # z2 = -r/e, z1 = s/e for one and the same e
        s = atom(('sigs', sig)); r = atom(('sigr', sig))
        e1 = pmul(n, pinv(s))
        e2 = pmul(mm, pinv(r))
        if e1 != padd(frozenset(), e2, -1):
            return False
        return self.good_e(eng, st, pinv(e1))
    def good_e(self, eng, st, e):
        return good_e(self, eng, st, e, self.idg)

def good_e(ck, eng, st, e, idg):
    """e is the digest as a number modulo q, or 1 when that is zero"""
    dg = argval(ck.F, idg)
    if e == const(1):
        return any(k[0] == 't' and k[1] == "BN_is_zero" and eng.rng(st, v) == ((1, 1),) and dig_ok(ck, k[2], dg) for k, v in st.ps.items())
    return dig_ok(ck, e, dg)

def dig_ok(ck, e, dg):
    a = atoms(e)
    if len(e) != 1 or len(a) != 1 or next(iter(e))[1] != 1:
        return False
    x = next(iter(a))
    if x[0] == 'le':
        l = x[2]
        while l[0] == 's' and l[1][0] in ('t', 'z'):
            l = l[1][-1]
        return x[1] == dg and (l[0] == 's' and l[1][0] == 'arg' or l[0] == 'i')
    return x[0] in ('obj', 'unk', 'be')

class SignCore(TermCheck):
    """a function that returns a fresh signature: s = r*d + k*e, r = x(k*G) mod q"""
    def __init__(self, prog, F):
        super().__init__(prog, F)
        t = [x.replace("const ", "").replace(" ", "") for x in F.argt]
        self.ikey = t.index("EC_KEY*")
        self.idg = next((i for i, x in enumerate(t) if x == "unsignedchar*"), None)
    def ret(self, eng, st, I, val):
        if val is None or val == NULL or val[0] not in 'ps':
            return
        t = st.ps.get(('sig', val))
        if t is None:
            if not any(lo <= 0 <= hi for lo, hi in eng.rng(st, val)):
                self.bad(eng, st, I, "empty", "a signature is returned although nothing was stored in it")
            return
        self.accepts += 1
        (r, rred), (s, sred) = t[1], t[2]
        o = self.stats["obligations"]
        for nm, p in (("r", r), ("s", s)):
            o.add((self.F.name, "nonzero", nm))
            if not self.nonzero(eng, st, p):
                self.bad(eng, st, I, "zero-" + nm, "a signature is produced without a test that %s is not zero" % nm)
        o.add((self.F.name, "nonce"))
        k = None
        if len(r) == 1 and rred:
            ((m, c),) = r
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'x' and m[0][0][1][0] == 'mul':
                _, n, q, mm = m[0][0][1]
                if mm is None and n is not None:
                    k = n
        if k is None:
            return self.bad(eng, st, I, "r", "the first half of a produced signature is not the x coordinate of a multiple of the base point modulo the order")
        ks = atoms(k)
        if not (len(k) == 1 and len(ks) == 1 and next(iter(ks))[0] == 'rand' and next(iter(k)) == (((next(iter(ks)), 1),), 1)):
            return self.bad(eng, st, I, "nonce", "the secret number of a signature is not a fresh random draw: " + show(k))
        if next(iter(ks))[2] != 'q':
            return self.bad(eng, st, I, "nonce-range", "the secret number of a signature is not drawn uniformly below the group order")
        d = atom(('obj', ('d', ('get', 'EC_KEY_get0_private_key', argval(self.F, self.ikey)))))
        rest = padd(pmod(s, ('q',)), pmul(r, d), -1)     # k*e
        e = pmul(rest, pinv(k))
        o.add((self.F.name, "equation"))
        if not sred or not good_e(self, eng, st, e, self.idg):
            return self.bad(eng, st, I, "s", "the second half of a produced signature is not r*d + k*e modulo the order: " + show(s))
        if e != const(1) and not self.nonzero(eng, st, e):
            return self.bad(eng, st, I, "zero-digest", "a signature is produced for a digest that is zero modulo the order without replacing it by 1")

class KeyGen(TermCheck):
    """EC_KEY_set_private_key of a drawn value: uniform below q, not zero; success only after a draw"""
    def setkey(self, eng, st, I, args):
        p, red = self.bn(st, args[1])
        if not any(a[0] == 'rand' for a in atoms(p)):
            return
        self.keys += 1
        self.stats["obligations"].add((self.F.name, "private key", I.id))
        ks = atoms(p)
        a = next(iter(ks))
        if len(p) != 1 or len(ks) != 1 or next(iter(p)) != (((a, 1),), 1) or a[2] != 'q':
            return self.bad(eng, st, I, "key-range", "a generated private key is not a uniform draw below the group order")
        if not self.nonzero(eng, st, p):
            self.bad(eng, st, I, "zero-key", "a generated private key is stored without a test that it is not zero")
        st.ps["drawn"] = ('drawn', args[0])
    def ret(self, eng, st, I, val):
        if self.mustkey and val is not None and any(hi > 0 for lo, hi in eng.rng(st, val)):
            self.accepts += 1
            if "drawn" not in st.ps:
                self.bad(eng, st, I, "no-key", "key generation reports success without storing a freshly drawn private key")
            elif not any(k[0] == 'pub' for k in st.ps):
                self.bad(eng, st, I, "no-public", "key generation reports success without storing the public key")
    mustkey = False
    PUBS = {}
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        if callee in self.PUBS and ok is not False and self.PUBS[callee] < len(args):
            st.ps[('pub', args[self.PUBS[callee]])] = ('k', callee)
    def setpub(self, eng, st, I, args):
        t = self.pt(st, args[1])
        if t[0] == 'mul':
            self.stats["obligations"].add((self.F.name, "public key", I.id))
            k = st.ps.get(('priv', args[0]))
            d = {atom(('obj', ('d', ('get', 'EC_KEY_get0_private_key', args[0]))))} | ({k[1]} if k is not None else set())
            if t[3] is not None or t[1] is None or t[1] not in d:
                self.bad(eng, st, I, "public-key", "the public key stored is not the private key times the base point")

class VerifyRole(TermCheck):
    """the verify callback accepts only what the core accepted, for the whole signature and digest"""
    CORES = {}
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        if callee in self.CORES and ok is not False:
            st.ps[('core', I.id)] = ('core', val, self.describe(st, callee, args))
    def describe(self, st, callee, args):
        isig, idg, ikey = self.CORES[callee]
        b = args[isig]
        t = st.ps.get(('sig', b))
        f = st.ps.get(('sigfrom', b[1])) if b[0] == 'p' else None
        return (t or f or ('?',), args[idg], args[ikey])
    def ret(self, eng, st, I, val):
        if val is None or not any(hi > 0 for lo, hi in eng.rng(st, val)):
            return
        self.accepts += 1
        self.stats["obligations"].add((self.F.name, "verdict"))
        for k, v in st.ps.items():
            if k[0] == 'core' and (v[1] == val or (eng.rng(st, v[1]) and eng.rng(st, v[1])[0][0] > 0)):
                if self.inputs(eng, st, I, v[2]):
                    return
        self.bad(eng, st, I, "verdict", "verification succeeds without a verdict of the signature equation")
    def inputs(self, eng, st, I, d):
        sig, dg, key = d
        if dg != argval(self.F, 3):
            self.bad(eng, st, I, "digest", "the verdict is about something else than the digest that was passed")
        if sig[0] == 'sig':
            h = None
            (r, _), (s, _) = sig[1], sig[2]
            for nm, p in (("r", r), ("s", s)):
                a = next(iter(atoms(p)), ('?',))
                if a[0] != 'be' or a[1][0] != 'p' or a[1][1] != ('d', ('arg', 1)):
                    self.bad(eng, st, I, "halves", "the halves of the signature are not read from the buffer that was passed")
                    return True
        elif sig[0] == 'call':
            if argval(self.F, 1) not in sig[2:]:
                self.bad(eng, st, I, "halves", "the halves of the signature are not read from the buffer that was passed")
        return True

def forms(P):
    import front
    out = {}
    for t in front.ecp_tus():
        m = front.module(t, "plain")
        for n, F in m.fns.items():
            f = point_form(F.argt)
            if f and not F.local:
                out[n] = f
    return out

def callees(P, roots):
    """functions reachable through direct calls"""
    todo, seen = list(roots), set()
    while todo:
        F = todo.pop()
        if F.name in seen:
            continue
        seen.add(F.name)
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call" and I.callee in P.fn:
                    todo.append(P.fn[I.callee])
    return seen

def withtype(F, t, i32=True):
    return any(x.replace("const ", "").replace(" ", "") == t for x in F.argt)

def c01(tier="quick"):
    P = tables.program()
    rl = roles.roles(P)
    TermCheck.forms = forms(P)
    R = Result()
    cb = [F for F in P.roots() if "pmeth.verify" in rl.get(F.name, ())]
    reach = callees(P, cb)
    cores = [F for F in P.roots() if F.name in reach and F.ret == "i32" and withtype(F, "ECDSA_SIG*") and withtype(F, "EC_KEY*")]
    for F in cores:
        c = VerifyCore(P, F)
        VerifyRole.CORES[F.name] = (c.isig, c.idg, c.ikey)
    acc, ob, undec = 0, set(), []
    for F, C in [(F, VerifyCore) for F in cores] + [(F, VerifyRole) for F in cb if verifies(F)]:
        ck, e = attempt(P, F, C)
        R.reports += ck.reports.values()
        acc += ck.accepts
        ob |= ck.stats["obligations"]
    R.coverage["explanation"] = ("Each big number on a path of the deciding function carries its value as a polynomial modulo the order "
        "over the inputs; at every return that may report success the tests on the path must show 0 < r, s < q and "
        "x(s/e*G - r/e*Q) mod q = r, with e the digest or 1 when the digest is zero.  The callbacks' success must be that verdict.")
    R.floor("deciding functions", len(cores), 1)
    R.floor("verify callbacks", len([F for F in cb if verifies(F)]), 1)
    R.floor("accepting paths", acc, 2)
    R.floor("obligations", len(ob), 4)
    R.assumptions += SHARED + ["The curve multiplication computes what C15/C20 select; its arithmetic itself is not part of this check."]
    return R

def verifies(F):
    """the callback that takes (ctx, signature, length, digest, length), not its initialiser"""
    return len(F.args) == 5

def c02(tier="quick"):
    P = tables.program()
    rl = roles.roles(P)
    TermCheck.forms = forms(P)
    R = Result()
    sign = [F for F in P.roots() if F.ret == "ptr" and "ECDSA_SIG" in F.rett and withtype(F, "EC_KEY*")]
    kg = {F.name for F in P.roots() if any(x.startswith("pmeth.keygen") for x in rl.get(F.name, ()))}
    reach = callees(P, [P.fn[n] for n in kg if n in P.fn])
    setters = [F for F in P.roots() if any(I.op == "call" and I.callee in ("EC_KEY_set_private_key", "EC_KEY_set_public_key") for b in F.order for I in F.blocks[b])]
    setters = [F for F in setters if any(I.op == "call" and (I.callee in DRAWS or I.callee in TermCheck.forms or I.callee == "EC_POINT_mul" or
                                         (I.callee in P.fn and point_form(P.fn[I.callee].argt))) for b in F.order for I in F.blocks[b])]
    ob, acc, keys = set(), 0, 0
    for F in sign:
        ck, e = attempt(P, F, SignCore)
        R.reports += ck.reports.values(); acc += ck.accepts; ob |= ck.stats["obligations"]
    for F in setters:
        KeyGen.PUBS[F.name] = next((i for i, x in enumerate(F.argt) if "EC_KEY" in x), 99)
    for F in setters:
        def mk(P, F):
            c = KeyGen(P, F)
            c.mustkey = F.name in reach and any(I.op == "call" and I.callee in DRAWS for b in F.order for I in F.blocks[b])
            return c
        ck, e = attempt(P, F, mk)
        R.reports += ck.reports.values(); keys += ck.keys; ob |= ck.stats["obligations"]
    # keygen callbacks must reach a function that draws a key
    drawing = {F.name for F in setters if any(I.op == "call" and I.callee in DRAWS for b in F.order for I in F.blocks[b])}
    R.coverage["explanation"] = ("At each return of a signature the stored halves are polynomials over the inputs: r = x(k*G) mod q with k an atom "
        "drawn below q in this call, s = r*d + k*e, both tested non-zero.  Each stored private key that stems from a draw is "
        "an unmodified draw below q tested non-zero, and success of the generating function implies such a store.")
    R.floor("signing functions", len(sign), 1)
    R.floor("signatures returned on paths", acc, 1)
    R.floor("generated keys", keys, 1)
    R.floor("key generating functions", len(drawing), 1)
    R.floor("obligations", len(ob), 6)
    R.assumptions += SHARED + ["BN_rand_range and BN_priv_rand_range draw uniformly (OpenSSL)."]
    return R
