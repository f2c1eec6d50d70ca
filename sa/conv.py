"""Return conventions of the repository's own functions.

's'  > 0 success, <= 0 failure            (also the default for int functions that call fallible code)
'z'  0 success, non-zero failure
'n'  >= 0 success, negative failure
'p'  fresh object or NULL                  'g'  borrowed pointer, may be NULL
'i'  plain value                            'v'  no result"""
from api import API

CONV = {
    "gost_mgm128_aad": "z", "gost_mgm128_encrypt": "z", "gost_mgm128_decrypt": "z",
    "gost_mgm128_finish": "z",
    "gost_magma_cipher_do_mgm": "n", "gost_grasshopper_cipher_do_mgm": "n",
    "get_gost_engine_param": "g", "get_encryption_params": "g", "gost_get0_priv_key": "g",
    "gost_ec_sign": "p:ECDSA_SIG", "unpack_cp_signature": "p:ECDSA_SIG",
    "GOST_init_cipher": "g", "GOST_init_digest": "g", "internal_bn_ctx": "i",
    "cipher_gost_grasshopper_ctracpkm": "g",
    "gost_ciphers": "i", "gost_digests": "i",
    "decrement_sequence": "b", "inc_counter": "v",
    "gost_destroy": "v",
    "ERR_load_GOST_strings": "i", "ERR_unload_GOST_strings": "i", "ERR_get_lib": "i",
    "VKO_compute_key": "l0",
    "get_line": "i", "gost_mac": "i", "gost_mac_iv": "i",
}
ASN1 = ("GOST_KEY_TRANSPORT", "GOST_KEY_INFO", "GOST_KEY_AGREEMENT_INFO", "GOST_KEY_PARAMS", "GOST_CIPHER_PARAMS",
        "GOST_CLIENT_KEY_EXCHANGE_PARAMS", "MASKED_GOST_KEY", "PSKeyTransport_gost", "GOST2015_CIPHER_PARAMS")
for n in ASN1:
    CONV[n + "_new"] = "p:" + n
    CONV[n + "_free"] = "v"
    CONV["d2i_" + n] = "p:" + n
    CONV["i2d_" + n] = "len"
    CONV[n + "_it"] = "g"

RANGES = {"s": ((-2, 0), (1, 2**31 - 1)), "z": ((-2, -1), (0, 0)), "n": ((-1, -1), (0, 2**31 - 1)),
          "l0": ((0, 0), (1, 2**31 - 1)), "len": ((-1, -1), (1, 2**31 - 1)), "b": ((0, 0), (1, 1))}

def conv(prog, callee):
    if callee is None:
        return None
    if callee in CONV:
        return CONV[callee]
    if callee in API:
        A = API[callee]
        return A.ret + (":" + A.kind if A.kind else "")
    F = prog.fn.get(callee)
    if F is None:
        return "b" if callee.startswith("point_mul") else None
    if F.ret == "void":
        return "v"
    if F.ret == "ptr":
        return "q"
    if F.ret in ("i32",):
        # an int function is a status function when something inside it can fail
        if not fallible_inside(prog, callee):
            return "i"
        r = ret_set(prog, callee)
        if r is not None and 0 in r and max(r) == 0 and min(r) < 0:
            return "n"            # 0 / negative
        return "b" if r is not None and r <= {0, 1} else "s"
    return "i"

_rs = {}
def ret_set(prog, name, stack=()):
    """the constants an int function can return, or None"""
    if name in _rs:
        return _rs[name]
    F = prog.fn.get(name)
    if F is None or name in stack:
        A = API.get(name)
        if A is None and name.startswith("point_mul"):
            return {0, 1}
        return {0, 1} if A is not None and A.ret == "b" else None
    out = set()
    def walk(v, seen):
        if v[0] == 'i':
            out.add(v[1])
            return True
        if v[0] != 'v' or v[1] in seen:
            return v[0] == 'v'
        seen.add(v[1])
        I = F.ins.get(v[1])
        if I is None:
            return False
        if I.op == "phi":
            return all([walk(x, seen) for x in I.j["in"].values()])
        if I.op == "select":
            return walk(I.args[1], seen) and walk(I.args[2], seen)
        if I.op in ("zext", "sext") and I.args[0][0] == 'v' and F.types.get(I.args[0][1]) == "i1":
            out.update((0, 1))
            return True
        if I.op == "call" and I.callee:
            r = ret_set(prog, I.callee, stack + (name,))
            if r is None:
                return False
            out.update(r)
            return True
        return False
    ok = True
    for b in F.order:
        T = F.blocks[b][-1]
        if T.op == "ret" and T.args and not walk(T.args[0], set()):
            ok = False
    _rs[name] = out if ok else None
    return _rs[name]

_fi = {}
def fallible_inside(prog, name, stack=()):
    if name in _fi:
        return _fi[name]
    if name in stack:
        return False
    F = prog.fn.get(name)
    r = False
    if F is not None:
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call" and I.callee and not I.callee.startswith("llvm."):
                    c = conv_shallow(I.callee)
                    if c in ("b", "s", "n", "len", "p", "q", "z"):
                        r = True
                    elif c is None and I.callee in prog.fn and prog.fn[I.callee].ret == "i32" and \
                            fallible_inside(prog, I.callee, stack + (name,)):
                        r = True
                if I.op == "ret" and False:
                    pass
    _fi[name] = r
    return r

def conv_shallow(callee):
    if callee in CONV:
        return CONV[callee].split(":")[0]
    if callee in API:
        A = API[callee]
        return None if A.cb else A.ret
    return "b" if callee.startswith("point_mul") else None

# functions of the repository that release an argument
FREES_ARG = {n + "_free": 0 for n in ASN1}

_pure = {}
def pure(prog, name, stack=()):
    """a function that only looks: no stores, and calls nothing but getters"""
    if name in _pure:
        return _pure[name]
    F = prog.fn.get(name)
    if F is None or name in stack or F.ret == "void":
        return False
    r = True
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "store" or I.op in ("atomicrmw", "cmpxchg"):
                r = False
            elif I.op == "call":
                c = I.callee
                if c is None:
                    r = False
                elif c.startswith("llvm."):
                    r = r and not c.startswith(("llvm.mem", "llvm.va"))
                else:
                    import engine
                    r = r and (c in engine.PURE or c in engine.PURE_INT or pure(prog, c, stack + (name,)))
    _pure[name] = r
    return r
