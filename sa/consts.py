"""C17: constant tables of the block ciphers and hash functions, evaluated from their initialisers."""
import json, os, re
import front, ctab
from ctab import G, value, elements
from curves import gimage
from front import AnalysisError, Program
from common import Report
from check import Result

def c17(tier):
    R = Result()
    P = Program()
    O = ctab.objects()
    with open(os.path.join(front.VERIF, "sa", "standard.json")) as f:
        std = json.load(f)
    n = [0]
    def v(name, key, text):
        R.reports.append(Report("C17", "%s:%s" % (name, key), ctab.where(P, name), text))
    def img(name, size=None, need=True):
        m, g = ctab.find(P, name)
        if g is None or "init" not in g or g["init"] is None and not g.get("sz"):
            if need:
                raise AnalysisError("table %s was not found" % name)
            return None
        b = gimage(g)
        if size and len(b) != size:
            v(name, "size", "%s has %d bytes, not %d" % (name, len(b), size))
            return None
        n[0] += len(b)
        return b
    def expect(name, got, want, es, what):
        if got is None:
            return
        bad = [i for i in range(0, len(want), es) if got[i:i + es] != want[i:i + es]]
        for i in bad[:4]:
            v(name, "entry:%d" % (i // es), "entry %d of %s is not %s" % (i // es, name, what))
        if len(bad) > 4:
            v(name, "entries", "%d entries of %s are wrong" % (len(bad), name))
    # --- Kuznyechik
    pi = img("grasshopper_pi", 256)
    pinv = img("grasshopper_pi_inv", 256)
    lvec = img("grasshopper_lvec", 16)
    if sorted(pi) != list(range(256)):
        v("grasshopper_pi", "perm", "the substitution is not a permutation")
    expect("grasshopper_pi", pi, bytes.fromhex(std["pi"]), 1, "the value of the standard")
    inv = bytearray(256)
    for i, x in enumerate(bytes.fromhex(std["pi"])):
        inv[x] = i
    expect("grasshopper_pi_inv", pinv, bytes(inv), 1, "the inverse of the substitution")
    expect("grasshopper_lvec", lvec, bytes.fromhex(std["lvec"]), 1, "the coefficient of the standard")
    POLY = 0x1C3
    alog = [1]
    for i in range(254):
        x = alog[-1] << 1
        alog.append(x ^ POLY if x & 256 else x)
    log = {x: i for i, x in enumerate(alog)}
    at = img("grasshopper_galois_alpha_to", 256)
    ix = img("grasshopper_galois_index_of", 256)
    # the product is alpha_to[(index_of[x] + index_of[y]) mod 255] for nonzero x, y: entry 255 / 0 unused
    expect("grasshopper_galois_alpha_to", at, bytes(alog) + at[255:], 1, "the power of the generator modulo x^8+x^7+x^6+x+1")
    expect("grasshopper_galois_index_of", ix, ix[:1] + bytes(log[i] for i in range(1, 256)), 1, "the logarithm")
    def mul(a, b):
        return alog[(log[a] + log[b]) % 255] if a and b else 0
    lv = bytes.fromhex(std["lvec"])
    def L(w):
        w = list(w)
        for _ in range(16):
            x = w[15]
            for i in range(14, -1, -1):
                w[i + 1] = w[i]
                x ^= mul(w[i], lv[i])
            w[0] = x
        return bytes(w)
    def Li(w):
        w = list(w)
        for _ in range(16):
            x = w[0]
            for i in range(15):
                w[i] = w[i + 1]
                x ^= mul(w[i], lv[i])
            w[15] = x
        return bytes(w)
    def columns(f):
        """f is linear: 16 x 256 images from the 128 images of single bits"""
        out = []
        for i in range(16):
            base = []
            for b in range(8):
                w = bytearray(16)
                w[i] = 1 << b
                base.append(int.from_bytes(f(w), "big"))
            row = [0] * 256
            for x in range(1, 256):
                lo = x & -x
                row[x] = row[x ^ lo] ^ base[lo.bit_length() - 1]
            out.append([r.to_bytes(16, "big") for r in row])
        return out
    l, li = columns(L), columns(Li)
    spi = bytes.fromhex(std["pi"])
    expect("grasshopper_pil_enc128", img("grasshopper_pil_enc128", 65536),
           b"".join(l[i][spi[b]] for i in range(16) for b in range(256)), 16, "the linear image of the substituted byte")
    expect("grasshopper_pil_dec128", img("grasshopper_pil_dec128", 65536),
           b"".join(li[i][inv[b]] for i in range(16) for b in range(256)), 16, "the inverse linear image of the inversely substituted byte")
    expect("grasshopper_l_dec128", img("grasshopper_l_dec128", 65536),
           b"".join(li[i][b] for i in range(16) for b in range(256)), 16, "the inverse linear image of the byte")
    # --- Streebog
    ax = img("Ax", 16384)
    want = bytearray()
    for j in range(8):
        base = [int(x, 16) for x in std["streebog_A"][j]]
        for b in range(256):
            x, r = spi[b], 0
            for k in range(8):
                if x >> k & 1:
                    r ^= base[k]
            want += r.to_bytes(8, "little")
    expect("Ax", ax, bytes(want), 8, "the linear image of the substituted byte")
    expect("C", img("C", 768), bytes.fromhex(std["streebog_C"]), 64, "the round constant of the standard")
    expect("buffer512", img("buffer512", 64), (512).to_bytes(64, "little"), 8, "the block length 512")
    expect("buffer0", img("buffer0", 64), bytes(64), 8, "zero")
    # --- GOST 28147-89 / Magma
    std_s = {k: bytes.fromhex(x) for k, x in std["sbox"].items()}
    nsb = 0
    byname = {"Gost28147_TestParamSet": "id-Gost28147-89-TestParamSet", "Gost28147_CryptoProParamSetA": "id-Gost28147-89-CryptoPro-A-ParamSet",
              "Gost28147_CryptoProParamSetB": "id-Gost28147-89-CryptoPro-B-ParamSet", "Gost28147_CryptoProParamSetC": "id-Gost28147-89-CryptoPro-C-ParamSet",
              "Gost28147_CryptoProParamSetD": "id-Gost28147-89-CryptoPro-D-ParamSet", "Gost28147_TC26ParamSetZ": "id-tc26-gost-28147-param-Z",
              "GostR3411_94_TestParamSet": "GostR3411_94_TestParamSet", "GostR3411_94_CryptoProParamSet": "GostR3411_94_CryptoProParamSet"}
    for m, name, g in ctab.of_type(P, "gost_subst_block"):
        if not (g.get("dt") or "").endswith("gost_subst_block"):
            continue
        nsb += 1
        b = gimage(g)
        n[0] += len(b)
        for r in range(8):
            if sorted(b[16 * r:16 * r + 16]) != list(range(16)):
                v(name, "perm:k%d" % (8 - r), "row k%d is not a permutation of 0..15" % (8 - r))
        if name in byname:
            expect(name, b, std_s[byname[name]], 16, "the row of the standard")
        elif b not in std_s.values():
            v(name, "unknown", "these substitution blocks are those of no standard parameter set")
    # identifier -> substitution blocks
    ids = 0
    for m, name, g in ctab.of_type(P, "struct gost_cipher_info"):
        pass
    for m in P.mods:
        for name, g in m.globals.items():
            if g["decl"] or not re.match(r"(const )?(struct )?gost_cipher_info\s*\[", g.get("dt") or ""):
                continue
            seen, els = {}, elements(value(g["init"]))
            flds = P.structs["gost_cipher_info"]["f"]
            off = {nm: o for o, s, nm, t in flds}
            sbo = [o for o, s, nm, t in flds if "gost_subst_block" in t][0]
            last = None
            for i, x in enumerate(els):
                x = x if isinstance(x, dict) else {}
                nid = x.get(off["nid"], 0)
                last = nid
                if not nid:
                    continue
                ids += 1
                sn = O.name(nid)
                s = x.get(sbo)
                if nid in seen:
                    v(name, "dup:" + sn, "%s appears twice" % sn)
                seen[nid] = 1
                if not isinstance(s, G):
                    v(name, "null:" + sn, "%s has no substitution blocks" % sn)
                    continue
                if sn not in std_s:
                    v(name, "id:" + sn, "%s is not an identifier of cipher parameters" % sn)
                elif gimage(ctab.find(P, s.n, m.tu)[1])[s.o:s.o + 128] != std_s[sn]:
                    v(name, "sbox:" + sn, "%s leads to the substitution blocks of another parameter set" % sn)
            if last is None or last:
                v(name, "end", "the list has no terminating row")
    km = img("CryptoProKeyMeshingKey", 32)
    expect("CryptoProKeyMeshingKey", km, bytes.fromhex(std["meshing_key"]), 1, "the byte of the standard")
    D = bytes(range(0x80, 0xA0))
    nD = 0
    for m in P.mods:
        for name, g in m.globals.items():
            if not g["decl"] and name.startswith("ACPKM_D"):
                nD += 1
                expect(name, gimage(g), D, 1, "the byte 0x80 + index")
    R.floor("bytes of tables", n[0], 200000)
    R.floor("substitution blocks", nsb, 8)
    R.floor("cipher parameter identifiers", ids, 6)
    R.floor("section constants", nD, 2)
    R.coverage["explanation"] = ("every entry of every table was read from the initialisers in the compiler's intermediate representation "
        "and recomputed: field logarithms modulo x^8+x^7+x^6+x+1, the linear transformation from its coefficients, combined tables from "
        "the substitution and the linear map, substitution rows as permutations; elementary tables are compared with the published values")
    R.assumptions = ["the published values of the substitution blocks, the linear map and the round constants are those in sa/standard.json"]
    return R
