"""Elliptic-curve constants: C14 (parameter sets), C15 (precomputed tables), C20 (dispatch by curve).

The tables are read from the compiler's intermediate representation of the current sources and evaluated with
exact integer arithmetic; nothing of the library is executed."""
import math, random, re
import front, ctab
from ctab import G, FnRef, value, elements, record, string, SCCP, TOP
from front import AnalysisError, Program
from common import Report
from check import Result

# ---------------------------------------------------------------- integers
def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rnd = random.Random(n)
    for _ in range(40):
        a = rnd.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

class Curve:
    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p
    def on(self, P):
        if P is None:
            return True
        x, y = P
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0
    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p
    def mul(self, k, P):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

# ---------------------------------------------------------------- parameter sets
FIELDS = ("a", "b", "p", "q", "x", "y", "cofactor")

class Row:
    pass

def param_rows(P):
    """every row of every table of parameter sets; (rows, termination problems)"""
    out, bad, tabs = [], [], 0
    for st in P.structs:
        names = [n for o, n, t in ctab.fields(P, st)]
        if all(f in names for f in FIELDS) and "nid" in names:
            break
    else:
        raise AnalysisError("the structure of the parameter sets was not found")
    al = {st}
    for m in P.mods:
        for n, g in m.globals.items():
            if not g["decl"] and g.get("sz") and re.match(r"(const )?(struct )?R3410_ec\w*\s*\[", g.get("dt") or ""):
                al.add(n)
                tabs += 1
                els = elements(value(g["init"]))
                last = None
                for i, v in enumerate(els):
                    r = record(P, v if isinstance(v, dict) else None, st)
                    last = r
                    if not r["nid"]:
                        if i != len(els) - 1:
                            bad.append((n, i, "rows after the terminator are never found"))
                        continue
                    R = Row()
                    R.table, R.index, R.nid, R.tu = n, i, r["nid"], m.tu
                    R.where = "%s:%s %s[%d]" % (m.tu, g.get("l"), n, i)
                    R.text = {f: string(P, r[f], m.tu) for f in FIELDS}
                    for f in FIELDS:
                        try:
                            setattr(R, f, int(R.text[f], 16))
                        except (TypeError, ValueError):
                            setattr(R, f, None)
                    out.append(R)
                if last is None or last["nid"]:
                    bad.append((n, len(els), "the table has no terminating row"))
    return out, bad, tabs

def c14(tier):
    R = Result()
    P = Program()
    O = ctab.objects()
    rows, bad, tabs = param_rows(P)
    rep = R.reports
    for n, i, t in bad:
        rep.append(Report("C14", "table:%s:%d" % (n, i), n, t))
    seen = {}
    ob = 0
    for r in rows:
        nm = O.name(r.nid)
        def v(what, text):
            rep.append(Report("C14", "%s:%s" % (nm, what), r.where, "%s: %s" % (nm, text)))
        if r.nid in seen:
            v("dup", "the identifier has two rows; only one is ever found")
        seen[r.nid] = r
        miss = [f for f in FIELDS if getattr(r, f) is None]
        ob += 1
        if miss:
            v("syntax", "not hexadecimal numbers: " + ", ".join(miss))
            continue
        bits = 512 if "512" in nm else 256
        p, q = r.p, r.q
        checks = 11
        ob += checks
        if not is_prime(p):
            v("p", "the field characteristic is not prime")
            continue
        if not is_prime(q):
            v("q", "the subgroup order is not prime")
            continue
        if not bits - 1 <= p.bit_length() <= bits:
            v("psize", "the field characteristic has %d bits" % p.bit_length())
        if not (1 << (254 if bits == 256 else 508)) < q < (1 << bits):
            v("qsize", "the subgroup order has %d bits" % q.bit_length())
        if not (r.a < p and r.b < p and r.x < p and r.y < p):
            v("range", "a coefficient or coordinate is not reduced")
        if (4 * r.a ** 3 + 27 * r.b ** 2) % p == 0:
            v("sing", "the curve is singular")
            continue
        C = Curve(p, r.a, r.b)
        if not C.on((r.x, r.y)):
            v("on", "the base point is not on the curve")
            continue
        if C.mul(q, (r.x, r.y)) is not None:
            v("order", "the base point does not have the stated order")
        n = q * r.cofactor
        if r.cofactor < 1 or (n - p - 1) ** 2 > 4 * p:
            v("hasse", "order times cofactor is outside Hasse's interval")
        elif (math.isqrt(4 * p) * 2 + 1) >= q:
            v("hasse2", "the subgroup is too small for the cofactor to be determined")
        if q == p:
            v("anom", "the curve is anomalous")
        k, t = 0, 1
        for k in range(1, 132):
            t = t * p % q
            if t == 1:
                v("mov", "the embedding degree is only %d" % k)
                break
    R.floor("parameter sets", len(rows), 10)
    R.floor("tables", tabs, 2)
    R.coverage["obligations"] = ob
    R.coverage["explanation"] = ("every row of the tables of parameter sets (%s) was read from the initialisers in the compiler's "
        "intermediate representation and tested with exact integer arithmetic: primality of p and q, size, reduced coefficients, "
        "non-singularity, base point on the curve, order, Hasse's interval, p != q, embedding degree above 131, "
        "unique identifiers, terminated tables" % ", ".join(sorted({r.table for r in rows})))
    R.assumptions = ["primality by 40 rounds of Miller-Rabin with bases derived from the number"]
    return R

# ---------------------------------------------------------------- images of globals
def image(k, sz):
    """initialiser -> bytes (address constants are zero)"""
    out = bytearray(sz)
    def put(k, at, room):
        if k is None:
            return
        if isinstance(k, int):
            out[at:at + room] = (k % (1 << 8 * room)).to_bytes(room, "little")
            return
        t = k["k"]
        if t == "c":
            w = k["w"] // 8
            v = k["v"] if "v" in k else int(k["big"])
            out[at:at + w] = (v % (1 << 8 * w)).to_bytes(w, "little")
        elif t == "bytes":
            b = bytes.fromhex(k["h"])
            out[at:at + len(b)] = b
        elif t == "arr":
            es = k.get("es") or room // len(k["e"])
            for i, x in enumerate(k["e"]):
                put(x, at + i * es, es)
        elif t == "nums":
            es = k.get("es") or room // len(k["v"])
            for i, x in enumerate(k["v"]):
                put(x, at + i * es, es)
        elif t == "struct":
            offs = list(k["off"]) + [room]
            for i, x in enumerate(k["e"]):
                put(x, at + k["off"][i], offs[i + 1] - k["off"][i])
    put(k, 0, sz)
    return bytes(out)

def gimage(g):
    return image(g["init"], g["sz"])

def dims(dt):
    return [int(x) for x in re.findall(r"\[(\d+)\]", dt or "")]

# ---------------------------------------------------------------- dedicated implementations
class Impl:
    """one half (word size) of one dedicated implementation"""
    def __init__(self, tu, tag, defs):
        self.tu, self.tag = tu, tag
        self.m = front.module(tu, "plain", defs, 2500, tag)
        self.g = self.m.globals
        self.entry = {}
        for n, F in self.m.fns.items():
            if not F.local:
                mm = re.match(r"point_mul_(two_|g_|)(id_\w+)$", n)
                if mm:
                    self.entry[mm.group(1)] = n
                    self.pset = mm.group(2)
        if not self.entry:
            raise AnalysisError("%s exports no point multiplication" % tu)
        if "const_one" not in self.g or "lut_cmb" not in self.g:
            raise AnalysisError("%s: the table of multiples was not found" % tu)
        self.nl = dims(self.g["const_one"]["dt"])[-1]
        self.ls = self.g["const_one"]["sz"] // self.nl
        one = self.limbs(gimage(self.g["const_one"]))
        self.unsat = one[0] == 1 and not any(one[1:])
        self.bits = 512 if "512" in self.pset.split("_param")[0] and "3410_2012_512" in self.pset else 256
    def limbs(self, b):
        return [int.from_bytes(b[i:i + self.ls], "little") for i in range(0, len(b), self.ls)]
    def fe(self, limbs, p):
        """field element a limb vector stands for"""
        n = self.nl
        if self.unsat:
            w = [-(-self.bits * i // n) for i in range(n)]
            return sum(l << w[i] for i, l in enumerate(limbs)) % p
        v = sum(l << (8 * self.ls * i) for i, l in enumerate(limbs))
        return v * pow(1 << (8 * self.ls * n), -1, p) % p
    def const(self, n, p):
        if n not in self.g:
            return None
        return self.fe(self.limbs(gimage(self.g[n])), p)
    def table(self, p):
        """rows of points (tuples of field elements), and the raw limbs for the range test"""
        g = self.g["lut_cmb"]
        d = dims(g["dt"])
        b = gimage(g)
        esz = g["sz"] // (d[0] * d[1])
        nc = esz // (self.ls * self.nl)
        rows, raw = [], []
        for j in range(d[0]):
            r, rr = [], []
            for k in range(d[1]):
                e = b[(j * d[1] + k) * esz:(j * d[1] + k + 1) * esz]
                l = self.limbs(e)
                cs = [l[i * self.nl:(i + 1) * self.nl] for i in range(nc)]
                r.append(tuple(self.fe(c, p) for c in cs))
                rr.append(cs)
            rows.append(r)
            raw.append(rr)
        return rows, raw

def impls():
    tus = front.ecp_tus()
    front.predump(tus, "plain")
    front.predump(tus, "plain", 2500, ("-DPEDANTIC",), "p")
    out = []
    for t in tus:
        for tag, defs in (("", ()), ("p", ("-DPEDANTIC",))):
            out.append(Impl(t, tag, defs))
    return out

def nid_by_define(name):
    d = ctab.defines("obj_mac.h")
    return int(d["NID_" + name]) if "NID_" + name in d else None

def comb_multipliers(I):
    """multipliers of the table row in the index of the scalar's digits: digit index = row * W + i"""
    out = []
    for F in I.m.fns.values():
        g = I.g["lut_cmb"]
        d = dims(g["dt"])
        rowsz = g["sz"] // d[0]
        df = {i.id: i for b in F.order for i in F.blocks[b]}
        def strip(o):
            while o[0] == "v" and o[1] in df and df[o[1]].op in ("sext", "zext", "trunc"):
                o = df[o[1]].args[0]
            return o
        def linear(o, depth=0):
            """o = sum coefficient * ssa + constant"""
            o = strip(o)
            if o[0] == "i":
                return {None: o[1]}
            if o[0] != "v" or depth > 12:
                return None
            x = df.get(o[1])
            if x is not None and x.op in ("add", "sub"):
                l, r = linear(x.args[0], depth + 1), linear(x.args[1], depth + 1)
                if l is None or r is None:
                    return None
                s = 1 if x.op == "add" else -1
                for k, v in r.items():
                    l[k] = l.get(k, 0) + s * v
                return l
            if x is not None and x.op in ("mul", "shl"):
                l, r = linear(x.args[0], depth + 1), linear(x.args[1], depth + 1)
                if l is None or r is None:
                    return None
                if x.op == "shl":
                    if set(r) != {None}:
                        return None
                    r = {None: 1 << r[None]}
                if set(l) == {None}:
                    l, r = r, l
                if set(r) != {None}:
                    return None
                return {k: v * r[None] for k, v in l.items()}
            return {o[1]: 1}
        rowvars = set()
        for b in F.order:
            for x in F.blocks[b]:
                if x.op == "getelementptr" and x.j["b"][0] == "p" and x.j["b"][1] == ("g", "lut_cmb"):
                    for v, s in x.j["vo"]:
                        if s == rowsz:
                            o = strip(v)
                            if o[0] == "v":
                                rowvars.add(o[1])
        if not rowvars:
            continue
        for b in F.order:
            for x in F.blocks[b]:
                if x.op == "getelementptr" and x.j["b"][0] == "v" and df.get(x.j["b"][1]) is not None \
                   and df[x.j["b"][1]].op == "alloca":
                    for v, s in x.j["vo"]:
                        if s == 1:
                            l = linear(v)
                            if l:
                                for r in rowvars:
                                    if l.get(r):
                                        out.append((F, x, l[r]))
    return out

def row_for(nid, rows, alias):
    nid = alias.get(nid, nid)
    for r in rows:
        if r.nid == nid:
            return r
    return None

def c15(tier):
    R = Result()
    P = Program()
    rows, _, _ = param_rows(P)
    alias = aliases(P, rows)
    ims = impls()
    rep = R.reports
    entries = consts = combs = 0
    for I in ims:
        half = "%d-bit" % (8 * I.ls)
        w = "%s:%s lut_cmb (%s)" % (I.tu, I.g["lut_cmb"].get("l"), half)
        def v(what, text, where=None):
            rep.append(Report("C15", "%s:%s:%s" % (I.pset, half, what), where or w, "%s (%s): %s" % (I.pset, half, text)))
        nid = nid_by_define(I.pset)
        r = row_for(nid, rows, alias) if nid else None
        if r is None:
            v("params", "there is no parameter set of this name")
            continue
        p, q = r.p, r.q
        C = Curve(p, r.a, r.b)
        def cw(n):
            return "%s:%s %s (%s)" % (I.tu, I.g[n].get("l"), n, half)
        # constants
        consts += 1
        if I.const("const_one", p) != 1:
            v("one", "const_one is not 1", cw("const_one"))
        tab, raw = I.table(p)
        edw = len(tab[0][0]) == 3
        S, T, d = (I.const(n, p) for n in ("const_S", "const_T", "const_d"))
        if edw:
            consts += 3
            if None in (S, T, d):
                raise AnalysisError("%s: the constants of the Edwards form were not found" % I.tu)
            if (4 * S - (1 - d)) % p:
                v("S", "const_S is not (1 - d) / 4", cw("const_S"))
            if (6 * T - (1 + d)) % p:
                v("T", "const_T is not (1 + d) / 6", cw("const_T"))
            if (S * S - 3 * T * T - r.a) % p or (2 * T ** 3 - T * S * S - r.b) % p:
                v("d", "the Edwards curve is not the Weierstrass curve of the parameter set", cw("const_d"))
        for n, want in (("const_a", r.a), ("const_b", r.b), ("const_b3", 3 * r.b)):
            c = I.const(n, p)
            if c is not None:
                consts += 1
                if (c - want) % p:
                    v(n[6:], "%s is not the coefficient of the parameter set" % n, cw(n))
        if not edw and "const_a" not in I.g and (r.a + 3) % p:
            v("a", "the implementation is for a = -3, the parameter set is not")
        # other constants of the same kind must not exist unchecked
        other = [n for n in I.g if n.startswith("const_") and n not in
                 ("const_one", "const_a", "const_b", "const_b3", "const_S", "const_T", "const_d", "const_zb")]
        if other:
            R.undecided.append("%s: constants %s" % (I.tu, ", ".join(other)))
        if "const_zb" in I.g:
            consts += 1
            if any(gimage(I.g["const_zb"])) or I.g["const_zb"]["sz"] < I.bits // 8:
                v("zb", "const_zb is not the zero element", cw("const_zb"))
        # the tables
        Gp = (r.x, r.y)
        def conv(Pt):
            if not edw:
                return Pt
            x, y = Pt
            u = (x - T) % p
            X = u * pow(y, -1, p) % p
            Y = (u - S) * pow(u + S, -1, p) % p
            return X, Y, X * Y % p
        if edw and ((Gp[0] - T + S) % p == 0 or Gp[1] == 0):
            v("conv", "the base point has no image in Edwards form")
            continue
        # the spacing of the rows, as the multiplication uses it
        Ws = sorted({c for F, x, c in comb_multipliers(I)})
        combs += len(Ws)
        n_dig = -(-(I.bits + 1) // 5) if I.bits == 256 else -(-(I.bits + 1) // 5)
        cand = Ws or [W for W in range(1, 33)]
        W = None
        if len(tab) > 1:
            B, doubled = Gp, 0
            for c in sorted(cand):
                B = C.mul(1 << (5 * (c - doubled)), B)
                doubled = c
                if conv(B) == tab[1][0]:
                    W = c
                    break
        if len(Ws) > 1:
            v("spacing", "the digits of the scalar are indexed with different spacings %s" % Ws)
        if W is None:
            W = cand[0] if Ws else None
        if W is None:
            v("row1", "row 1 of the table is no multiple of the base point that a comb could use")
            continue
        digits = 0
        for F, x, c in comb_multipliers(I):
            al = None
            df = {i.id: i for b in F.order for i in F.blocks[b]}
            a = df[x.j["b"][1]]
            digits = max(digits, a.j.get("sz") or a.j.get("n") or 0)
        if digits and W * len(tab) < digits:
            v("cover", "%d rows spaced %d digits apart do not cover the %d digits of a scalar" % (len(tab), W, digits))
        B = Gp
        badn = 0
        for j, tr in enumerate(tab):
            if j:
                B = C.mul(1 << (5 * W), B)
            D = C.add(B, B)
            Q = B
            for k, e in enumerate(tr):
                if k:
                    Q = C.add(Q, D)
                entries += 1
                if Q is None or conv(Q) != e:
                    badn += 1
                    if badn <= 5:
                        v("entry:%d:%d" % (j, k), "entry [%d][%d] is not %d * 2^%d times the base point" % (j, k, 2 * k + 1, 5 * W * j))
                # limbs inside the range that the field arithmetic expects
                for ci, cs in enumerate(raw[j][k]):
                    lim = limb_bounds(I)
                    if any(l > m for l, m in zip(cs, lim)) or (not I.unsat and sum(l << (8 * I.ls * i) for i, l in enumerate(cs)) >= p):
                        v("limb:%d:%d" % (j, k), "entry [%d][%d] is not in the range the field arithmetic expects" % (j, k))
                        break
        if badn > 5:
            v("entries", "%d entries are wrong" % badn)
        if [len(t) for t in tab] != [16] * len(tab):
            v("cols", "the table does not have 16 entries per row")
    R.floor("implementations", len(ims), 16)
    R.floor("table entries", entries, 4000)
    R.floor("constants", consts, 40)
    R.coverage["row spacings taken from the multiplication's index expressions"] = combs
    R.coverage["explanation"] = ("each table entry and curve constant of both word-size variants of each dedicated implementation was "
        "read from the initialisers and compared with exact multiples of the parameter set's base point; the spacing of the rows "
        "is the multiplier of the row number in the index of the scalar's digits")
    R.assumptions = ["limb weights are ceil(bits*i/n) where const_one is (1,0,...), Montgomery form with R = 2^(limb bits * n) otherwise"]
    return R

def limb_bounds(I):
    """upper bounds of the limbs of a tight field element"""
    if not I.unsat:
        return [(1 << (8 * I.ls)) - 1] * I.nl
    w = [-(-I.bits * i // I.nl) for i in range(I.nl)] + [I.bits]
    return [1 << (w[i + 1] - w[i]) for i in range(I.nl)]

# ---------------------------------------------------------------- dispatch
def ec_nids(rows):
    O = ctab.objects()
    s = {r.nid for r in rows}
    for nid, sn in O.sn.items():
        if re.match(r"id-(GostR3410-2001-|tc26-gost-3410-2012-)", sn):
            s.add(nid)
    return sorted(s)

def lookups(P, rows):
    """functions that search the tables of parameter sets by identifier"""
    tabs = {r.table for r in rows}
    out = []
    for m in [front.module(t, "plain") for t in P.tus]:
        for F in m.fns.values():
            import tables
            if tabs & set(tables.globals_of(F)) and any(t == "int" for t in F.argt) and F.rett.replace("const ", "").rstrip("* ").endswith(("R3410_ec_params", "R3410_ec")):
                out.append(F)
    return out

def aliases(P, rows):
    """identifier -> identifier of the row that is used for it"""
    front.predump(P.tus, "plain")
    out = {}
    L = lookups(P, rows)
    tabnids = {r.nid for r in rows}
    O = ctab.objects()
    for F in L:
        pos = [i for i, t in enumerate(F.argt) if t == "int"][0]
        for nid in ec_nids(rows):
            S = SCCP(P, F, {pos: nid})
            got = set()
            for b in F.order:
                if b not in S.blocks:
                    continue
                for I in F.blocks[b]:
                    if I.op == "icmp" and I.j["p"] in ("eq", "ne"):
                        a = [S.op(x) for x in I.args]
                        if TOP in a:
                            o = [x for x in a if isinstance(x, int)]
                            if o and o[0] > 0 and o[0] in tabnids | {nid}:
                                got.add(o[0])
            if len(got) == 1 and got != {nid}:
                out[nid] = got.pop()
    return out

def c20(tier):
    R = Result()
    P = Program()
    O = ctab.objects()
    rows, _, _ = param_rows(P)
    alias = aliases(P, rows)
    impl_tu = {}
    for t in front.ecp_tus():
        m = front.module(t, "plain")
        for n, F in m.fns.items():
            mm = re.match(r"point_mul_(two_|g_|)(id_\w+)$", n)
            if mm and not F.local:
                impl_tu[n] = (t, mm.group(2), mm.group(1))
    # the dispatching function: reaches the dedicated implementations and asks for the curve's name
    disp = []
    for m in P.mods:
        for F in m.fns.values():
            cs = {I.callee for b in F.order for I in F.blocks[b] if I.op == "call" and I.callee}
            if len(cs & set(impl_tu)) >= 3 and any(x.where and x.callee == "EC_GROUP_get_curve_name" for b in F.order for x in F.blocks[b] if x.op == "call"):
                disp.append(F)
    if not disp:
        raise AnalysisError("no function selects the dedicated implementations by curve")
    rep = R.reports
    FORMS = {"n": ("base point", "g_"), "m": ("arbitrary point", ""), "nm": ("both", "two_")}
    cases = 0
    used = set()
    top = disp if len(disp) == 1 else [F for F in disp if F.name == "gost_ec_point_mul"] or disp[:1]
    for F in top:
        names = [n for _, n, _ in F.args]
        idx = {}
        bns = [i for i, t in enumerate(F.argt) if "BIGNUM" in t or "bignum_st" in t]
        pts = [i for i, t in enumerate(F.argt) if "EC_POINT" in t or "ec_point_st" in t]
        if len(bns) != 2 or len(pts) != 2:
            raise AnalysisError("the arguments of %s are not (group, r, n, q, m, ctx)" % F.name)
        sel = {}
        for nid in ec_nids(rows):
            row = row_for(nid, rows, alias)
            for form, (txt, pre) in FORMS.items():
                a = {i: G("#arg%d" % i) for i in range(len(F.args))}
                a[bns[0]] = G("#n") if "n" in form else 0
                a[bns[1]] = G("#m") if "m" in form else 0
                a[pts[1]] = G("#q") if "m" in form else 0
                S = SCCP(P, F, a, calls={"EC_GROUP_get_curve_name": nid})
                got = set()
                for I, args in S.calls():
                    if I.callee in impl_tu or I.callee == "EC_POINT_mul":
                        got.add((I.callee, I))
                cases += 1
                nm = O.name(nid)
                if len({c for c, _ in got}) != 1:
                    rep.append(Report("C20", "%s:%s:%s" % (F.name, nm, form), "%s in %s" % (F.mod.tu, F.name),
                                      "%s, multiplication of %s: %s" % (nm, txt, "no implementation is selected" if not got else
                                      "several implementations are selected: " + ", ".join(sorted(c for c, _ in got)))))
                    continue
                c, I = got.pop()
                if c == "EC_POINT_mul":
                    sel[(nid, form)] = None
                    continue
                tu, ps, kind = impl_tu[c]
                used.add(c)
                sel[(nid, form)] = ps
                if kind != pre:
                    rep.append(Report("C20", "%s:%s:%s:kind" % (F.name, nm, form), I.where(),
                                      "%s: multiplication of %s is done with %s" % (nm, txt, c)))
                # argument order
                if row is None:
                    continue
                pr = row_for(nid_by_define(ps) or -1, rows, alias)
                if pr is None or any(getattr(pr, f) != getattr(row, f) for f in FIELDS):
                    rep.append(Report("C20", "%s:%s:%s:curve" % (F.name, nm, form), I.where(),
                                      "%s is multiplied with the implementation of another curve (%s)" % (nm, ps)))
                # the scalars and the point reach the right parameters
                CF = front.module(tu, "plain").fns[c]
                for pi, t in enumerate(CF.argt):
                    if pi >= len(args):
                        continue
                    av = args[pi]
                    pn = CF.args[pi][1]
                    exp = None
                    if "EC_POINT" in t:
                        k = [j for j, tt in enumerate(CF.argt) if "EC_POINT" in tt].index(pi)
                        exp = a[pts[k]]
                    elif "BIGNUM" in t:
                        k = [j for j, tt in enumerate(CF.argt) if "BIGNUM" in tt].index(pi)
                        exp = a[bns[k]] if kind == "two_" else a[bns[0] if kind == "g_" else bns[1]]
                    if exp is not None and isinstance(av, G) and av != exp:
                        rep.append(Report("C20", "%s:%s:%s:args" % (F.name, nm, form), I.where(),
                                          "%s: argument %d of %s is not the one it is meant for" % (nm, pi, c)))
        for nid in ec_nids(rows):
            s = {sel[(nid, f)] for f in FORMS if (nid, f) in sel}
            if len(s) > 1:
                rep.append(Report("C20", "%s:%s:agree" % (F.name, O.name(nid)), "%s in %s" % (F.mod.tu, F.name),
                                  "%s: the three forms of multiplication use different arithmetic (%s)"
                                  % (O.name(nid), ", ".join(str(x) for x in sorted(s, key=str)))))
    for n, (t, ps, k) in sorted(impl_tu.items()):
        r = row_for(nid_by_define(ps) or -1, rows, alias)
        if r is None:
            rep.append(Report("C20", "impl:" + n, t, "%s belongs to no parameter set" % n))
    R.floor("selections", cases, 30)
    R.floor("dedicated implementations", len(impl_tu), 24)
    R.coverage["reached implementations"] = len(used)
    R.coverage["aliases"] = {O.name(k): O.name(v) for k, v in alias.items()}
    R.coverage["explanation"] = ("conditional constant propagation over %s for every curve identifier and each of the three forms of "
        "multiplication; the selected implementation's parameter set must have the same numbers as the row of the identifier"
        % ", ".join(F.name for F in top))
    return R
