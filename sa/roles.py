"""Which callback plays which part: the roles functions get from descriptors, method setters and dispatch tables."""
import functools, re
import ctab, front
from ctab import G, FnRef, value, record, elements, init, find
import tables

PM = {"ctrl": ("ctrl", "ctrl_str"), "sign": ("sign_init", "sign"), "verify": ("verify_init", "verify"),
      "keygen": ("keygen_init", "keygen"), "paramgen": ("paramgen_init", "paramgen"),
      "encrypt": ("encrypt_init", "encrypt"), "decrypt": ("decrypt_init", "decrypt"),
      "derive": ("derive_init", "derive"), "signctx": ("signctx_init", "signctx"),
      "check": ("check",), "public_check": ("public_check",), "init": ("init",), "cleanup": ("cleanup",), "copy": ("copy",)}
AM = {"public": ("pub_decode", "pub_encode", "pub_cmp", "pub_print", "pkey_size", "pkey_bits"),
      "private": ("priv_decode", "priv_encode", "priv_print"),
      "param": ("param_decode", "param_encode", "param_missing", "param_copy", "param_cmp", "param_print"),
      "free": ("free",), "ctrl": ("ctrl",), "security_bits": ("security_bits",)}

class Cipher:
    def __init__(self, name, r, where, tu):
        self.name, self.r, self.where, self.tu = name, r, where, tu
        self.flags = r["flags"] or 0
        self.custom = bool(self.flags & 0x100000)
        self.mode = self.flags & 0xF0007
    def fn(self, k):
        v = self.r.get(k)
        return v.n if isinstance(v, FnRef) else None

class Digest(Cipher):
    pass

@functools.lru_cache(None)
def _ciphers(P):
    out = []
    for m, n, g in ctab.of_type(P, "GOST_cipher"):
        if (g.get("dt") or "").strip().endswith("GOST_cipher") and "init" in g:
            r = tables.resolved(P, n, "gost_cipher_st")
            if r.get("init") and r.get("do_cipher"):
                out.append(Cipher(n, r, ctab.where(P, n), m.tu))
    return out

def ciphers(P):
    """every cipher descriptor (templates with their own handlers included)"""
    return _ciphers(P)

@functools.lru_cache(None)
def digests(P):
    out = []
    for m, n, g in ctab.of_type(P, "GOST_digest"):
        if (g.get("dt") or "").strip().endswith("GOST_digest") and "init" in g:
            r = tables.resolved(P, n, "gost_digest_st")
            if r.get("init"):
                out.append(Digest(n, r, ctab.where(P, n), m.tu))
    return out

@functools.lru_cache(None)
def roles(P):
    """function name -> set of roles"""
    R = {}
    def put(f, role):
        if f:
            R.setdefault(f, set()).add(role)
    for c in ciphers(P):
        for k in ("init", "cleanup", "set_asn1_parameters", "get_asn1_parameters", "ctrl"):
            put(c.fn(k), "cipher." + k)
        put(c.fn("do_cipher"), "cipher.do_custom" if c.custom else "cipher.do")
    for d in digests(P):
        for k in ("init", "update", "final", "copy", "cleanup", "ctrl"):
            put(d.fn(k), "digest." + k)
    for m in P.mods:
        for F in m.fns.values():
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op != "call" or not I.callee:
                        continue
                    for pre, T, tag in (("EVP_PKEY_meth_set_", PM, "pmeth."), ("EVP_PKEY_asn1_set_", AM, "ameth.")):
                        if I.callee.startswith(pre) and I.callee[len(pre):] in T:
                            for a, nm in zip(I.args[1:], T[I.callee[len(pre):]]):
                                if a[0] == "f":
                                    put(a[1], tag + nm)
                                elif a[0] == "v":
                                    for f in phi_fns(F, a):
                                        put(f, tag + nm)
                    if I.callee.startswith("ENGINE_set_") and len(I.args) > 1 and I.args[1][0] == "f":
                        put(I.args[1][1], "engine." + I.callee[11:])
    SL = tables.slots()
    byop = {}
    for k, v in SL.items():
        byop.setdefault(k.split("_")[0], {})[v[0]] = k
    base, ops, Q = tables.provider(P)
    for op, L in tables.prov_algs(P).items():
        for names, dn, m, w in L:
            for r in tables.rows_of(P, dn, m.tu):
                f = r.get(8)
                if isinstance(f, FnRef) and r.get(0) in byop.get(op, {}):
                    put(f.n, "prov." + byop[op][r[0]].replace("_", ".", 1))
    for r in tables.rows_of(P, base[0], base[1].tu):
        f = r.get(8)
        if isinstance(f, FnRef):
            put(f.n, "prov.base")
    return R

def phi_fns(F, a, seen=None):
    seen = seen or set()
    if a[0] == "f":
        return {a[1]}
    if a[0] != "v" or a[1] in seen:
        return set()
    seen.add(a[1])
    I = F.ins.get(a[1])
    if I is None:
        return set()
    if I.op == "phi":
        return set().union(*[phi_fns(F, x, seen) for x in I.j["in"].values()])
    if I.op == "select":
        return phi_fns(F, I.args[1], seen) | phi_fns(F, I.args[2], seen)
    return set()
