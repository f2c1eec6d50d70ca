"""Accesses stay inside objects of known size; ranges taken from a length argument are checked first."""
import re
from engine import Checker, Engine, NULL, INF, iv_hull, mentions
from api import API
from common import Report, fmt_path
import conv as CV
from c03 import FALL

ARR = re.compile(r"^\[(\d+) x (.*)\]$")
ESZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1}
def arr_bytes(t, prog):
    m = ARR.match(t)
    if m:
        e = arr_bytes(m.group(2), prog)
        return None if e is None else int(m.group(1)) * e
    if t in ESZ:
        return ESZ[t]
    if t.startswith("%struct."):
        s = prog.structs.get(t[8:].split(".")[0])
        return s["size"] if s else None
    return None

class BoundsCheck(Checker):
    weak = True
    def __init__(self, prog, F, inv=None):
        super().__init__()
        self.prog, self.F, self.inv = prog, F, inv or {}
        self.stats = {"checked": set()}
    def want_fork(self, callee, I):
        if callee is None:
            return False
        A = API.get(callee)
        if A is not None and A.cb:
            return False
        c = CV.conv(self.prog, callee)
        return c is not None and c.split(":")[0] in FALL
    def fail_range(self, callee, I):
        c = CV.conv(self.prog, callee)
        return CV.RANGES[c.split(":")[0]]
    def prune(self, eng, st, bases, b):
        for k in [k for k in st.ps if k not in bases]:
            del st.ps[k]
    def after(self, eng, st, I, callee, args, val, ok):
        A = API.get(callee) if callee else None
        if A is not None and A.size is not None and ok and val and val[0] == 'p':
            st.ps[val[1]] = ('size', args[A.size])
    def objsize(self, eng, st, base):
        if base[0] == 'a':
            J = self.F.ins.get(base[1])
            if J is not None and J.j.get("n", {}).get("v") == 1:
                return J.j.get("sz")
        if base[0] == 'g':
            return eng.objsize(base)
        if base[0] == 'h':
            s = st.ps.get(base)
            if s and s[1][0] == 'i':
                return s[1][1]
            if s:
                l, h = iv_hull(eng.rng(st, s[1]))
                return ('min', l)
        return None
    def check(self, eng, st, I, ptr, n, what, opnd):
        """n: number of bytes (int or engine value)"""
        self.stats["checked"].add((self.F.name, I.id))
        nv = ('i', n) if isinstance(n, int) else n
        nl, nh = iv_hull(eng.rng(st, nv))
        if nh <= 0 and nl == nh:
            return
        b = eng.base_of(ptr)
        if b is not None:
            sz = self.objsize(eng, st, b[0])
            if isinstance(sz, tuple):
                s = st.ps.get(b[0])
                if nv == s[1] and b[1] == 0:
                    sz = None
                else:
                    sz = None           # symbolic sizes are left to the relational rule
            if sz is not None and sz > 0:
                off = b[1]
                l, h = (off, off) if isinstance(off, int) else iv_hull(eng.rng(st, off))
                if l < 0 or h + nh > sz:
                    self.rep(eng, st, I, what, "offset %s, %s byte(s), object of %d byte(s)" % (rg(l, h), rg(nl, nh), sz))
                    return
        # type-based bound of the innermost array being indexed
        g = self.F.ins.get(opnd["i"]) if opnd is not None and opnd.get("k") == "v" else None
        if g is not None and g.op == "getelementptr":
            st_ = g.j.get("st", "")
            lim = None
            if g.j["vo"] and ARR.match(st_):
                lim = (0, arr_bytes(st_, self.prog))
            elif st_.startswith("%struct."):
                s = self.prog.structs.get(st_[8:])
                if s:
                    for f in s["f"]:
                        if f[0] <= g.j["o"] < f[0] + f[1]:
                            lim = (f[0], f[0] + f[1])
                if lim is not None and not g.j["vo"] and g.j["o"] == 0 and lim[0] == 0:
                    lim = (0, s["size"])       # &object and &object.first_member look alike
            if lim is not None and lim[1]:
                l = h = g.j["o"]
                for v, sc in g.j["vo"]:
                    a, c = iv_hull(eng.rng(st, eng.val(st, v)))
                    l, h = max(l + a * sc, -INF), min(h + c * sc, INF)
                if l < lim[0] or h + nh > lim[1]:
                    self.rep(eng, st, I, what, "offset %s, %s byte(s), member at %d..%d" % (rg(l, h), rg(nl, nh), lim[0], lim[1]))
    def load(self, eng, st, I, ptr, size):
        self.check(eng, st, I, ptr, size, "load", I.j["a"][0])
    def store(self, eng, st, I, ptr, val, size):
        self.check(eng, st, I, ptr, size, "store", I.j["a"][1])
    def access(self, eng, st, I, ptr, size, kind, what):
        op = I.j["a"][0 if kind == "w" else 1]
        self.check(eng, st, I, ptr, size, what.split(".")[1] if "." in what else what, op)
    def rep(self, eng, st, I, what, detail):
        key = ("bounds", self.F.name, I.fn, I.line, what)
        if key not in self.reports:
            self.reports[key] = Report("out-of-bounds", "%s/%s/%s" % (self.F.name, I.fn, what), I.where(),
                                       what + " " + detail, fmt_path(st.path(14)))

def rg(l, h):
    f = lambda x: "-inf" if x <= -(1 << 63) else "inf" if x >= (1 << 63) - 1 else str(x)
    return f(l) if l == h else "%s..%s" % (f(l), f(h))
