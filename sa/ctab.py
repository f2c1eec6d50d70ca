"""Constants of the analysed program: initialisers as Python values, structures by field name,
OpenSSL's numeric identifiers, and conditional constant propagation over one function."""
import functools, re
import front
from front import AnalysisError

class G:
    """address of (an offset into) a global"""
    __slots__ = ("n", "o")
    def __init__(self, n, o=0):
        self.n, self.o = n, o
    def __eq__(self, b):
        return isinstance(b, G) and (b.n, b.o) == (self.n, self.o)
    def __hash__(self):
        return hash((self.n, self.o))
    def __repr__(self):
        return "&%s%s" % (self.n, "+%d" % self.o if self.o else "")

class FnRef:
    __slots__ = ("n",)
    def __init__(self, n):
        self.n = n
    def __eq__(self, b):
        return isinstance(b, FnRef) and b.n == self.n
    def __hash__(self):
        return hash(self.n)
    def __repr__(self):
        return self.n

def value(k):
    """initialiser (JSON) -> int, None for a null pointer, G, FnRef, list, dict(offset -> value) or bytes"""
    if k is None:
        return None
    t = k["k"]
    if t == "c":
        return k["v"] if "v" in k else int(k["big"])
    if t == "null":
        return None
    if t == "g":
        return G(k["n"], k.get("o", 0))
    if t == "f":
        return FnRef(k["n"])
    if t == "arr":
        return [value(x) if isinstance(x, dict) else x for x in k["e"]]
    if t == "struct":
        return {o: value(x) for o, x in zip(k["off"], k["e"])}
    if t == "bytes":
        return bytes.fromhex(k["h"])
    if t == "nums":
        return list(k["v"])
    if t == "zero":
        return 0
    return ("?", k)

def find(P, name, tu=None):
    """the defining module and record of a global (static ones via tu)"""
    if tu:
        for m in P.mods:
            if m.tu == tu and name in m.globals and not m.globals[name]["decl"]:
                return m, m.globals[name]
    for m in P.mods:
        g = m.globals.get(name)
        if g and not g["decl"] and not g["local"]:
            return m, g
    for m in P.mods:
        g = m.globals.get(name)
        if g and not g["decl"]:
            return m, g
    return None, None

def init(P, name, tu=None):
    m, g = find(P, name, tu)
    if g is None:
        raise AnalysisError("global %s has no definition" % name)
    return value(g.get("init"))

def where(P, name, tu=None):
    m, g = find(P, name, tu)
    return "%s:%s %s" % (m.tu if m else "?", g.get("l") if g else "?", name)

def string(P, v, tu):
    """the C string a constant points to"""
    if not isinstance(v, G):
        return None
    b = init(P, v.n, tu)
    if b in (None, 0):
        return ""
    if not isinstance(b, bytes):
        return None
    return b[v.o:].split(b"\0")[0].decode("latin1")

def fields(P, st):
    if st not in P.structs:
        raise AnalysisError("structure %s is not described" % st)
    return [(o, n, t) for o, s, n, t in P.structs[st]["f"]]

def record(P, v, st):
    """struct constant as dict by field name; v None means all zero"""
    out = {}
    for o, n, t in fields(P, st):
        x = (v or {}).get(o)
        if x is None and not t.endswith("*") and t != "fn*":
            x = 0
        out[n] = x
    return out

def elements(v):
    if v is None or v == 0:
        return []
    if isinstance(v, list):
        return v
    if isinstance(v, dict):
        return [v[k] for k in sorted(v)]
    raise AnalysisError("not an array constant: %r" % (v,))

def of_type(P, dt, tus=None):
    """globals whose declared element type is dt (arrays and scalars)"""
    for m in P.mods:
        if tus and m.tu not in tus:
            continue
        for n, g in m.globals.items():
            if g["decl"]:
                continue
            t = re.sub(r"\bconst\b\s*", "", g.get("dt") or "").strip()
            base = re.sub(r"\[.*", "", t).strip()
            if base == dt:
                yield m, n, g

# ---------------------------------------------------------------- OpenSSL's identifiers
@functools.lru_cache(None)
def defines(header):
    d = {}
    with open("/usr/include/openssl/" + header) as f:
        txt = f.read().replace("\\\n", " ")
    for m in re.finditer(r"^\s*#\s*define\s+(\w+)[ \t]+(.*?)\s*$", txt, re.M):
        d[m.group(1)] = re.sub(r"/\*.*?\*/", "", m.group(2)).strip()
    return d

class Objects:
    def __init__(self):
        d = defines("obj_mac.h")
        self.sn, self.ln, self.oid = {}, {}, {}
        for k, v in d.items():
            if k.startswith("NID_"):
                try:
                    nid = int(v.rstrip("L"))
                except ValueError:
                    continue
                b = k[4:]
                if "SN_" + b in d:
                    self.sn[nid] = d["SN_" + b].strip('"')
                if "LN_" + b in d:
                    self.ln[nid] = d["LN_" + b].strip('"')
                if "OBJ_" + b in d:
                    o = self._oid(d, "OBJ_" + b)
                    if o:
                        self.oid[nid] = o
        self.by = {}
        for t in (self.sn, self.ln, self.oid):
            for n, s in t.items():
                self.by.setdefault(s.lower(), set()).add(n)
    def _oid(self, d, k, depth=0):
        if depth > 40:
            return None
        out = []
        for p in d[k].split(","):
            p = p.strip().rstrip("L")
            if p.isdigit():
                out.append(p)
            elif p in d:
                s = self._oid(d, p, depth + 1)
                if s is None:
                    return None
                out.append(s)
            else:
                return None
        return ".".join(out)
    def name(self, nid):
        return self.sn.get(nid) or self.ln.get(nid) or str(nid)

@functools.lru_cache(None)
def objects():
    return Objects()

# ---------------------------------------------------------------- conditional constant propagation
TOP = ("top",)

class SCCP:
    """conditional constant propagation over F with some arguments fixed; unknown values are TOP.
    F.exec: executable blocks; F.val: SSA id -> constant"""
    def __init__(self, P, F, args, calls=None):
        self.P, self.F = P, F
        self.cres = calls or {}
        self.val = {}
        for n, (i, nm, t) in enumerate(F.args):
            self.val[i] = args.get(n, TOP)
        self.edges = set()
        self.blocks = set()
        self.run()
    def op(self, o):
        if o[0] == "v":
            return self.val.get(o[1])
        if o[0] == "i":
            return o[1]
        if o[0] == "p":
            return G(o[1][1], o[2])
        if o[0] == "f":
            return FnRef(o[1])
        return TOP
    def run(self):
        F = self.F
        work = [(None, F.entry)]
        n = 0
        while work:
            n += 1
            if n > 50000:
                raise AnalysisError("constant propagation does not converge in " + F.name)
            e = work.pop()
            if e[0] is not None:
                self.edges.add(e)
            first = e[1] not in self.blocks
            self.blocks.add(e[1])
            changed = self.block(e[1])
            if first or changed:
                for s in self.out(e[1]):
                    if first or changed or (e[1], s) not in self.edges:
                        work.append((e[1], s))
            else:
                for s in self.out(e[1]):
                    if (e[1], s) not in self.edges:
                        work.append((e[1], s))
    def out(self, b):
        I = self.F.blocks[b][-1]
        if I.op == "br":
            if "c" in I.j:
                c = self.op(I.j["c"])
                if isinstance(c, int):
                    return [I.j["s"][0] if c else I.j["s"][1]]
                if c is None:
                    return []
            return list(I.j["s"])
        if I.op == "switch":
            c = self.op(I.j["c"])
            if isinstance(c, int):
                for v, s in I.j["cs"]:
                    if v == c:
                        return [s]
                return [I.j["d"]]
            if c is None:
                return []
            return front.succs(I)
        return []
    def block(self, b):
        ch = False
        for I in self.F.blocks[b]:
            if not I.t or I.t == "void":
                continue
            v = self.eval(I, b)
            if v is None:
                continue
            o = self.val.get(I.id)
            if o is not None and o != v:
                v = TOP
            if o != v:
                self.val[I.id] = v
                ch = True
        return ch
    def eval(self, I, b):
        if I.op == "phi":
            r = None
            for p, o in I.j["in"].items():
                if (p, b) in self.edges:
                    v = self.op(o)
                    if v is None:
                        continue
                    r = v if r is None or r == v else TOP
            return r
        a = [self.op(x) for x in I.args]
        if any(x is None for x in a):
            return None
        if I.op == "call" and I.callee in self.cres:
            return self.cres[I.callee]
        if I.op == "icmp":
            x, y = a
            p = I.j["p"]
            if isinstance(x, (G, FnRef)) and y == 0 and p in ("eq", "ne"):
                return -1 if p == "ne" else 0
            if isinstance(x, (G, FnRef)) and isinstance(y, (G, FnRef)) and p in ("eq", "ne"):
                return -int((x == y) == (p == "eq"))
            if isinstance(x, int) and isinstance(y, int):
                w = 64
                ux, uy = x % (1 << w), y % (1 << w)
                r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                     "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[p]
                return -int(r)
            return TOP
        if I.op in ("add", "sub", "mul", "and", "or", "xor", "shl") and all(isinstance(x, int) for x in a):
            x, y = a
            w = front.WIDTH.get(I.t, 64)
            r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y,
                 "shl": x << (y & 63)}[I.op] % (1 << w)
            return r - (1 << w) if r >> (w - 1) else r
        if I.op == "zext" and isinstance(a[0], int):
            w = front.WIDTH.get(self.F.types.get(I.args[0][1]), 64) if I.args[0][0] == "v" else 64
            return a[0] % (1 << w)
        if I.op in ("sext", "trunc", "bitcast", "freeze"):
            return a[0]
        if I.op == "select":
            c, x, y = a
            if isinstance(c, int):
                return x if c else y
            return x if x == y else TOP
        if I.op == "getelementptr":
            base = self.op(I.j["b"])
            if base is None:
                return None
            if isinstance(base, G):
                off = base.o + I.j.get("o", 0)
                for v, s in I.j["vo"]:
                    x = self.op(v)
                    if x is None:
                        return None
                    if not isinstance(x, int):
                        return TOP
                    off += x * s
                return G(base.n, off)
            return TOP
        return TOP
    def calls(self):
        for b in self.F.order:
            if b in self.blocks:
                for I in self.F.blocks[b]:
                    if I.op == "call":
                        yield I, [self.op(x) for x in I.args]
    def returns(self):
        for b in self.F.order:
            if b in self.blocks and self.F.blocks[b][-1].op == "ret":
                I = self.F.blocks[b][-1]
                if I.args:
                    yield self.op(I.args[0])
