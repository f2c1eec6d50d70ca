"""Secret scalars and authentication codes decide neither branches nor addresses (C16): a taint analysis of the code as
written (before optimisation), with one summary per set of tainted arguments."""
import front
from front import AnalysisError
from common import Report
from check import Result
import tables

# external functions that write a value derived from one argument to another: name -> (destination, sources)
FLOW = {"BN_bn2lebinpad": (1, (0,)), "BN_bn2binpad": (1, (0,)), "BN_bn2bin": (1, (0,)), "BN_bn2nativepad": (1, (0,)),
        "BN_bn2lebin": (1, (0,)), "BN_signed_bn2lebin": (1, (0,)), "BN_signed_bn2bin": (1, (0,)),
        "memcpy": (0, (1,)), "memmove": (0, (1,)), "BUF_reverse": (0, (1,)), "OPENSSL_strlcpy": (0, (1,)), "stpcpy": (0, (1,)),
        "bcopy": (1, (0,)), "memccpy": (0, (1,)), "mempcpy": (0, (1,))}
BNARITH = ("BN_copy", "BN_with_flags", "BN_mod", "BN_nnmod", "BN_add", "BN_sub", "BN_mul", "BN_sqr", "BN_mod_add", "BN_mod_sub",
           "BN_mod_mul", "BN_mod_sqr", "BN_lshift", "BN_rshift", "BN_lshift1", "BN_rshift1", "BN_mod_exp", "BN_mod_inverse", "BN_uadd",
           "BN_usub", "BN_mod_lshift", "BN_mod_lshift1", "BN_mod_add_quick", "BN_mod_sub_quick", "BN_swap", "BN_div")
# the value returned tells single digits of the number
DIGITS = {"BN_is_bit_set": 0, "BN_is_odd": 0, "BN_get_word": 0, "BN_mod_word": 0, "BN_num_bits": 0, "BN_is_word": 0,
          "BN_is_one": 0, "BN_abs_is_word": 0}
# comparisons that stop at the first difference, and searches
EARLY = {"memcmp": (0, 1), "bcmp": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1),
         "OPENSSL_strcasecmp": (0, 1), "OPENSSL_strncasecmp": (0, 1), "OPENSSL_memcmp": (0, 1), "memchr": (0,), "strlen": (0,),
         "memmem": (0, 2), "strnlen": (0,), "ASN1_OCTET_STRING_cmp": (0, 1), "timingsafe": ()}
RANDOM = {"BN_rand_range": 0, "BN_priv_rand_range": 0, "BN_rand": 0, "BN_priv_rand": 0, "BN_rand_range_ex": 0, "BN_priv_rand_range_ex": 0,
          "BN_generate_dsa_nonce": 0}
PRIVATE = {"EC_KEY_get0_private_key", "gost_get0_priv_key"}
MACS = {"EVP_DigestFinal_ex": 1, "EVP_DigestFinal": 1, "EVP_DigestFinalXOF": 1, "EVP_DigestSignFinal": 1, "CMAC_Final": 1, "HMAC_Final": 1,
        "EVP_MAC_final": 1}
MULS = ("EC_POINT_mul", "gost_ec_point_mul")

def objects(F, o, seen=None):
    """the objects a pointer operand may address"""
    if o[0] == 'p':
        return {o[1]}
    if o[0] != 'v':
        return set()
    if o[1] not in F.ins:
        i = next((n for n, a in enumerate(F.args) if a[0] == o[1]), None)
        return {('arg', i)} if i is not None else set()
    I = F.ins[o[1]]
    seen = seen or set()
    if o[1] in seen:
        return set()
    seen = seen | {o[1]}
    if I.op == "getelementptr":
        return objects(F, I.j["b"], seen)
    if I.op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
        return objects(F, I.args[0], seen)
    if I.op == "phi":
        return set().union(*(objects(F, v, seen) for v in I.j["in"].values()))
    if I.op == "select":
        return objects(F, I.args[1], seen) | objects(F, I.args[2], seen)
    if I.op in ("add", "sub", "and", "or"):
        return set().union(*(objects(F, v, seen) for v in I.args))
    if I.op == "load":
        # a pointer kept in a local variable or a member
        return {('l', b, 0) for b in objects(F, I.args[0], seen)}
    return {('i', o[1])}

PURE = ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "trunc", "icmp", "select", "freeze")
def selection(F, T):
    """the block where the arms of a branch meet, when they only select between values (`c ? a : b` without side effects)"""
    ends = []
    for n in T.j["s"]:
        L = F.blocks[n]
        if L[-1].op == "br" and "c" not in L[-1].j and len(L) <= 5 and all(I.op in PURE for I in L[:-1]):
            ends.append((n, L[-1].j["s"][0]))
        else:
            ends.append((n, None))
    (a, ja), (b, jb) = ends
    if a == b:
        return None
    if ja == jb and ja is not None:
        return ja
    if ja == b:
        return b
    if jb == a:
        return a
    return None

class Taint:
    def __init__(self, fns, mac=False, random=True):
        self.fns, self.mac, self.random = fns, mac, random
        self.memo = {}
        self.sites = set()
        self.seen = set()
        self.steps = 0
    def run(self, F, ctx=frozenset()):
        """ctx: tainted arguments, ('v', i) the value, ('m', i) what it points to -> (result tainted, arguments tainted, findings)"""
        k = (F.name, ctx)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (False, frozenset(), ())
        self.seen.add(F.name)
        self.memo[k] = self.once(F, ctx)
        return self.memo[k]
    def once(self, F, ctx):
        T = {F.args[i][0] for w, i in ctx if w == 'v' and i < len(F.args)}
        M = {('arg', i) for w, i in ctx if w == 'm'}
        bad = {}
        ret = False
        t = lambda o: o[0] == 'v' and o[1] in T
        def mem(o):
            return any(b in M for b in objects(F, o)) if o[0] in 'vp' else False
        def fill(o):
            for b in objects(F, o):
                if b[0] != 'g' and b not in M:
                    M.add(b)
                    return True
            return False
        def find(I, what):
            bad.setdefault((I.id, what), Report("secret-dependent " + what, "%s/%s/%s" % (F.name, I.fn, what.replace(" ", "-")), I.where(),
                "%s depends on a secret value" % what.capitalize(), ""))
        change = True
        while change:
            change = False
            n0 = (len(T), len(M))
            for b in F.order:
                for I in F.blocks[b]:
                    self.steps += 1
                    op = I.op
                    if op == "load":
                        if t(I.args[0]):
                            find(I, "address of a read")
                        if t(I.args[0]) or mem(I.args[0]):
                            T.add(I.id)
                    elif op == "store":
                        if t(I.args[1]):
                            find(I, "address of a write")
                        if t(I.args[0]):
                            fill(I.args[1])
                    elif op == "getelementptr":
                        if any(t(v) for v, s in I.j["vo"]) or t(I.j["b"]):
                            T.add(I.id)
                    elif op == "br":
                        if "c" in I.j and t(I.j["c"]):
                            j = selection(F, I)
                            if j is None:
                                find(I, "branch")
                            else:
                                T.update(J.id for J in F.blocks[j] if J.op == "phi")
                    elif op == "switch":
                        if t(I.j["c"]):
                            find(I, "branch")
                    elif op == "ret":
                        if I.args and t(I.args[0]):
                            ret = True
                    elif op == "phi":
                        if any(t(v) for v in I.j["in"].values()):
                            T.add(I.id)
                    elif op == "call":
                        self.call(F, I, t, mem, fill, T, M, find, bad)
                    elif op != "alloca":
                        if op in ("udiv", "sdiv", "urem", "srem") and any(t(a) for a in I.args):
                            find(I, "division")
                        if any(t(a) for a in I.args):
                            T.add(I.id)
            change = n0 != (len(T), len(M))
        outs = frozenset(b[1] for b in M if b[0] == 'arg')
        return ret, outs, tuple(sorted(bad.values(), key=lambda r: (r.key, r.where)))
    def call(self, F, I, t, mem, fill, T, M, find, bad):
        c, a = I.callee, I.args
        if c is None:
            if any(t(x) for x in a):
                T.add(I.id)
            cv = I.j.get("cv")
            if cv and t(cv):
                find(I, "branch")
            return
        if c.startswith("llvm."):
            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                if t(a[2]):
                    find(I, "length of a copy")
                if mem(a[1]) if "set" not in c else t(a[1]):
                    fill(a[0])
            elif not c.startswith(("llvm.dbg", "llvm.lifetime")) and any(t(x) for x in a):
                T.add(I.id)
            return
        if self.random and c in RANDOM:
            self.sites.add((F.name, I.id))
            fill(a[RANDOM[c]])
        if self.random and c in PRIVATE:
            self.sites.add((F.name, I.id))
            M.add(('i', I.id))
        if self.mac:
            i = MACS.get(c)
            if i is None and c in self.fns and c.startswith("gost_mac") and len(a) >= 5:
                i = len(a) - 1
            if i is not None and i < len(a):
                # a code in a local array; how other functions use what they are given is their own matter
                if all(b[0] == 'i' and F.ins[b[1]].op == "alloca" for b in objects(F, a[i])):
                    self.sites.add((F.name, I.id))
                    fill(a[i])
        if c in EARLY:
            if any(i < len(a) and mem(a[i]) for i in EARLY[c]):
                find(I, "a comparison that stops at the first difference")
            return
        G = self.fns.get(c)
        if G is not None and G is not F and not self.mac:
            ctx = frozenset([('v', i) for i, x in enumerate(a) if t(x)] + [('m', i) for i, x in enumerate(a) if mem(x)])
            if ctx or self.random or self.mac:
                r, outs, fs = self.run(G, ctx)
                for f in fs:
                    bad.setdefault((f.key, f.where), f)
                if r:
                    T.add(I.id)
                for i in outs:
                    if i < len(a):
                        fill(a[i])
            return
        if c in FLOW:
            d, ss = FLOW[c]
            if any(mem(a[i]) for i in ss):
                fill(a[d])
        elif c in BNARITH:
            if any(mem(x) for x in a[1:]):
                fill(a[0])
        elif c in DIGITS:
            if mem(a[DIGITS[c]]):
                T.add(I.id)
        elif c == "BN_dup":
            if mem(a[0]):
                M.add(('i', I.id))

def bignums(F):
    return [i for i, t in enumerate(F.argt) if "BIGNUM" in t or "bignum_st" in t]
def points(F):
    return [i for i, t in enumerate(F.argt) if "EC_POINT" in t or "ec_point_st" in t]

def c16(tier="quick"):
    R = Result()
    got = {}
    entries, fns, steps, macs = 0, set(), 0, 0
    # dedicated implementations, both word sizes
    for tag, defs in (("", ()), (".w32", ("-U__SIZEOF_INT128__",))):
        front.predump(front.ecp_tus(), "plain", defs=defs, tag=tag)
        for tu in front.ecp_tus():
            m = front.module(tu, "plain", defs, tag=tag)
            A = Taint(m.fns, random=False)
            for n, F in sorted(m.fns.items()):
                if F.local or len(bignums(F)) != 1 or not points(F):
                    continue
                entries += 1
                r, outs, fs = A.run(F, frozenset([('m', bignums(F)[0])]))
                if not any(True for b in F.order for I in F.blocks[b] if I.op == 'call' and I.callee in A.seen):
                    raise AnalysisError("%s: the scalar does not reach the arithmetic of the file" % n)
                for f in fs:
                    f.key = "%s/%s%s" % (tu, f.key, "/32-bit" if tag else "")
                    got.setdefault(f.key, f)
            fns |= {(tu, tag, n) for n in A.seen}
            steps += A.steps
    # their callers: nonces, private keys, scalars of key agreement
    P = tables.program()
    muls = set(MULS) | {n for m in (front.module(t, "plain") for t in front.ecp_tus()) for n, F in m.fns.items() if not F.local}
    callers = [F for F in P.roots() if not F.mod.tu.startswith("ecp_") and any(
        I.op == "call" and I.callee in muls for b in F.order for I in F.blocks[b])]
    nosub = {n: F for n, F in P.fn.items() if not F.mod.tu.startswith("ecp_") and n not in muls}
    S = Taint(nosub)
    for F in sorted(callers, key=lambda F: F.name):
        ctx = frozenset(('m', i) for i in bignums(F)) if F.name in muls else frozenset()
        for f in S.run(F, ctx)[2]:
            got.setdefault(f.key, f)
    # authentication codes
    C = Taint({n: F for n, F in P.fn.items() if not F.mod.tu.startswith("ecp_")}, mac=True, random=False)
    for F in sorted(P.roots(), key=lambda F: F.name):
        if not F.mod.tu.startswith("ecp_"):
            for f in C.run(F)[2]:
                got.setdefault("mac/" + f.key, f)
    R.reports += [got[k] for k in sorted(got)]
    R.coverage["explanation"] = ("Taint analysis of the code as written: from the scalar of every single-scalar multiplication of every dedicated "
        "implementation (both word sizes), from random nonces and private keys in the functions that multiply, and from computed "
        "authentication codes in the whole library, no tainted value decides a branch, an address, a length or a division, and none is given "
        "to a comparison that stops at the first difference.")
    R.coverage["instructions evaluated"] = steps + S.steps + C.steps
    R.floor("single-scalar entry points (both word sizes)", entries, 2)
    R.floor("functions of dedicated implementations the scalar reaches", len(fns), 10)
    R.floor("sources of secrets in the callers", len(S.sites), 2)
    R.floor("computations of authentication codes", len(C.sites), 4)
    R.assumptions += ["The compiler turns selections between two computed values (with or without a conditional operator) into code without branches; whether a result is the point at infinity, and the range "
                      "checks of whole numbers (zero, sign, comparison with the order), are not secret.",
                      "OpenSSL's functions on numbers and points are outside the analysis; simultaneous multiplication of two scalars serves verification and is public.",
                      "Tables are tracked as whole objects."]
    return R
