"""A disjunctive abstract interpreter over the SSA form produced by irdump.

Values (hashable tuples)
  ('i', n)            integer constant; NULL is ('i', 0)
  ('s', S)            symbol; S is a structural name (argument, call result, memory cell ...)
  ('+', S, c)         symbol plus constant
  ('p', base, off)    pointer; off is an int or an integer value
  ('b', pred, x, y)   comparison;  ('not', b) ('and', b, c) ('or', b, c)
  ('f', name)         function
  ('u',)              uninitialised
Bases: ('a', id) local, ('g', name) global, ('h', id) fresh object of call id,
       ('d', S) pointee of symbol S.
A state holds the SSA environment, memory cells, interval constraints on symbols
and the checker's own property state.  States are split on branches and on the
success / failure of modelled calls, deduplicated per block, and joined only
when a block exceeds CAP states.  Loops are widened with thresholds taken from
the comparisons of the function.  Nothing is executed and no solver is used."""
import heapq, itertools, re
from api import API
import conv as CV
from front import AnalysisError, WIDTH

INF = 1 << 70
TOP = ((-INF, INF),)
NULL = ('i', 0)
U = ('u',)

class Budget(AnalysisError):
    pass

def iv_and(a, b):
    r = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                r.append((l, h))
    return tuple(r)

def iv_or(a, b):
    r = []
    for l, h in sorted(a + b):
        if r and l <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(h, r[-1][1]))
        else:
            r.append((l, h))
    if len(r) > 8:
        r = r[:4] + [(r[4][0], r[-1][1])]
    return tuple(r)

def iv_shift(a, c):
    return tuple((l + c if l > -INF else l, h + c if h < INF else h) for l, h in a)

def iv_hull(a):
    return (a[0][0], a[-1][1])

def trange(w):
    if w is None or w > 64:
        return TOP
    return ((-(1 << (w - 1)), (1 << (w - 1)) - 1),)

class State:
    __slots__ = ("env", "mem", "objs", "con", "ps", "trace", "pre", "vis")
    def __init__(self):
        self.env, self.mem, self.objs, self.con, self.ps = {}, {}, {}, {}, {}
        self.trace = None
    def clone(self):
        s = State.__new__(State)
        s.env, s.mem, s.objs, s.con = dict(self.env), dict(self.mem), dict(self.objs), dict(self.con)
        s.ps = dict(self.ps)
        s.trace = self.trace
        return s
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.con.items()),
                frozenset(self.objs.items()), frozenset(self.ps.items()))
    def note(self, t):
        self.trace = (self.trace, t)
    def path(self, n=12):
        r, t = [], self.trace
        while t:
            r.append(t[1])
            t = t[0]
        return list(reversed(r))[-n:]

def mentions(x, name):
    """does value/symbol x contain the name (a symbol or base)?"""
    if x == name:
        return True
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple) and mentions(y, name):
                return True
    return False

def subst(x, a, b):
    if x == a:
        return b
    if isinstance(x, tuple):
        ch = False
        r = []
        for y in x:
            z = subst(y, a, b) if isinstance(y, tuple) else y
            ch |= z is not y
            r.append(z)
        return tuple(r) if ch else x
    return x

PURE = {n for n, a in API.items() if a.ret in ("g", "G") and "get" in n} - {
    "fgets", "getenv", "EVP_CIPHER_CTX_get_app_data", "EVP_CIPHER_CTX_buf_noconst"} | {
    "EC_GROUP_get0_order", "EVP_CIPHER_CTX_iv_noconst", "EVP_CIPHER_CTX_original_iv", "EVP_CIPHER_CTX_iv",
    "EVP_CIPHER_CTX_buf_noconst", "EVP_CIPHER_CTX_cipher", "EVP_MD_CTX_md"}
PURE_INT = {"BN_is_negative", "BN_is_zero", "BN_cmp", "BN_ucmp", "EC_GROUP_get_curve_name", "EVP_PKEY_get_base_id",
            "EVP_PKEY_get_id", "ASN1_STRING_length", "EVP_CIPHER_CTX_get_iv_length", "EVP_CIPHER_CTX_get_key_length",
            "EVP_CIPHER_get_iv_length", "EVP_CIPHER_get_key_length", "EVP_CIPHER_CTX_get_nid", "OBJ_obj2nid",
            "EVP_MD_get_size", "EVP_MD_get_type", "EVP_CIPHER_CTX_is_encrypting", "EVP_CIPHER_CTX_get_block_size",
            "EVP_CIPHER_get_block_size", "ASN1_TYPE_get", "BN_num_bits", "EC_POINT_cmp", "BN_is_one",
            "EVP_CIPHER_get_mode", "EVP_CIPHER_get_flags", "EVP_CIPHER_is_a", "EVP_MD_is_a"}
# constructors that fill the object passed as this argument when there is one
INTO = {"BN_bin2bn": 2, "BN_lebin2bn": 2, "BN_native2bn": 2, "ASN1_INTEGER_to_BN": 1, "BN_to_ASN1_INTEGER": 1}
MUTNAME = re.compile(r"_set|Init|_ctrl|_copy|_reset|Update|Final|_div$|_mod|_add|_sub|_mul|_rand|lebin2bn|bin2bn")
# setter -> (object argument, value argument or None when a copy is stored, getter)
SETGET = {"EVP_PKEY_assign": (0, 2, "EVP_PKEY_get0"), "EC_KEY_set_group": (0, None, "EC_KEY_get0_group"),
          "EC_KEY_set_public_key": (0, None, "EC_KEY_get0_public_key"),
          "EC_KEY_set_private_key": (0, None, "EC_KEY_get0_private_key"),
          "EVP_PKEY_CTX_set_data": (0, 1, "EVP_PKEY_CTX_get_data"),
          "EVP_CIPHER_CTX_set_app_data": (0, 1, "EVP_CIPHER_CTX_get_app_data")}
# APIs that modify caller-visible fields of argument 0
MUT0 = {"ASN1_STRING_set", "ASN1_OCTET_STRING_set", "ASN1_TYPE_set", "X509_ALGOR_set0"}

class Checker:
    """base class of the property checkers"""
    null_args_ok = True
    weak = False              # property state does not keep objects alive; prune() drops stale entries
    def prune(self, eng, st, bases, b): pass
    stable = ()               # getters that return the same pointer throughout the life of the object
    keep = None               # callable(base): its contents are remembered although nothing refers to it
    coarse = None             # callable(eng, st, phi, value): value to use at a loop head instead, or None
    simplify = None           # callable(eng, st, block): forget what does not matter before states are compared
    exact_offsets = False     # pointer offsets that are sums keep their terms
    pins = ()                 # symbols whose relations to other values are remembered
    widen_cells = False       # the classes hold for memory cells as well
    widen_class = None        # callable(eng, st, value): values of different classes are not merged at loop heads
    want_fork = None          # callable(callee) -> bool: split success/failure at the call
    def __init__(self):
        self.reports = {}
    def start(self, eng, st): pass
    def call(self, eng, st, I, callee, args): return None     # list of (state, value) or None
    def after(self, eng, st, I, callee, args, val, ok): pass  # after default modelling; ok True/False/None
    def ret(self, eng, st, I, val): pass
    def load(self, eng, st, I, ptr, size): pass
    def loaded(self, eng, st, I, ptr, val): pass              # after a load
    def store(self, eng, st, I, ptr, val, size): pass
    def branch(self, eng, st, I, v, taken): return True
    def access(self, eng, st, I, ptr, size, kind, what): pass  # ranges touched by memcpy-like calls
    def block(self, eng, st, b): pass
    def lost(self, eng, st, I, base): pass                    # the object name is being reused (loop)
    def subst(self, eng, st, old, new): pass
    def report(self, key, **kw):
        if key not in self.reports:
            self.reports[key] = kw

class Engine:
    CAP = 300
    MAXSTEPS = 400000
    def __init__(self, F, prog, checker, cap=None):
        self.F, self.prog, self.ck = F, prog, checker
        self.mod = F.mod
        self.symw = {}
        self.seen = {}
        self.wid = {}
        self.steps = 0
        self.joins = 0
        if cap:
            self.CAP = cap
        self.calls_seen = set()

    # ---------- symbols
    def sym(self, st, name, w=64, rng=None):
        """(re)define the symbol `name`"""
        if name in st.con or self._used(st, name):
            self.rename(st, name)
        self.symw.setdefault(name, w)
        if rng is not None:
            st.con[name] = rng
        return ('s', name)

    def _used(self, st, name):
        if name not in self.symw:
            return False
        for d in (st.env, st.mem):
            for k, v in d.items():
                if isinstance(v, tuple) and mentions(v, name):
                    return True
        for k in st.mem:
            if mentions(k[0], name):
                return True
        for k in st.con:
            if mentions(k, name):
                return True
        for k, v in st.ps.items():
            if (isinstance(k, tuple) and mentions(k, name)) or (isinstance(v, tuple) and mentions(v, name)):
                return True
        return False

    def rename(self, st, name, new=None):
        if new is None:
            new = ('o', name)
            if len(str(name)) > 160 or (isinstance(name, tuple) and name[0] == 'o'):
                new = ('o', 'x')
            # drop what was known about an even older generation
            st.con = {k: v for k, v in st.con.items() if not mentions(k, new)}
        self.symw.setdefault(new, self.symw.get(name, 64))
        st.env = {k: subst(v, name, new) for k, v in st.env.items()}
        st.mem = {subst(k, name, new): (v[0], subst(v[1], name, new)) for k, v in st.mem.items()}
        st.con = {subst(k, name, new): v for k, v in st.con.items()}
        st.objs = {subst(k, name, new): v for k, v in st.objs.items()}
        st.ps = {(subst(k, name, new) if isinstance(k, tuple) else k): (subst(v, name, new) if isinstance(v, tuple) else v)
                 for k, v in st.ps.items()}
        self.ck.subst(self, st, name, new)

    def rng(self, st, v):
        k = v[0]
        if k == 'i':
            return ((v[1], v[1]),)
        if k == 's':
            r = st.con.get(v[1])
            return r if r is not None else trange(self.symw.get(v[1], 64))
        if k == '+':
            r = st.con.get(v[1])
            return iv_shift(r if r is not None else trange(self.symw.get(v[1], 64)), v[2])
        if k in ('b', 'not', 'and', 'or'):
            return ((0, 1),)
        if k == 'p':
            if v[1][0] == 'd':
                if v[2] == 0:
                    r = st.con.get(v[1][1])
                    return r if r is not None else TOP
            return ((1, INF),)
        if k == 'f':
            return ((1, INF),)
        return TOP

    def refine(self, st, v, iv):
        """constrain v to iv; False if impossible"""
        k = v[0]
        if k == 's' or (k == 'p' and v[1][0] == 'd' and v[2] == 0):
            n = v[1] if k == 's' else v[1][1]
            r = iv_and(self.rng(st, v), iv)
            if not r:
                return False
            st.con[n] = r
            return True
        if k == '+':
            r = iv_and(self.rng(st, v), iv)
            if not r:
                return False
            st.con[v[1]] = iv_shift(r, -v[2])
            return True
        return bool(iv_and(self.rng(st, v), iv))

    def add(self, st, a, c):
        if a[0] == 'i':
            return ('i', a[1] + c)
        if c == 0:
            return a
        if a[0] == 's':
            return ('+', a[1], c)
        if a[0] == '+':
            return ('+', a[1], a[2] + c) if a[2] + c else ('s', a[1])
        return None

    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
           'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
            'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

    def assume(self, st, c, truth):
        """states in which the boolean value c equals truth (st may be consumed)"""
        k = c[0]
        if k == 'i':
            return [st] if bool(c[1]) == truth else []
        if k == 'not':
            return self.assume(st, c[1], not truth)
        if k in ('and', 'or'):
            if (k == 'and') == truth:
                r = []
                for s in self.assume(st, c[1], truth):
                    r += self.assume(s, c[2], truth)
                return r
            a = self.assume(st.clone(), c[1], truth)
            b = []
            for s in self.assume(st, c[1], not truth):
                b += self.assume(s, c[2], truth)
            return a + b
        if k == 'b':
            return self.cmp(st, c[1] if truth else self.NEG[c[1]], c[2], c[3])
        if k in ('s', '+', 'p', 'f'):
            return self.cmp(st, 'ne' if truth else 'eq', c, NULL)
        return [st]

    def decide(self, st, v):
        """a comparison as a constant when the state settles it"""
        if v[0] not in ('b', 'not', 'and', 'or'):
            return v
        t = bool(self.assume(st.clone(), v, True))
        f = bool(self.assume(st.clone(), v, False))
        if t and not f:
            return ('i', 1)
        if f and not t:
            return ('i', 0)
        return v

    def cmp(self, st, p, a, b):
        if a[0] in ('b', 'not', 'and', 'or') and b[0] == 'i':
            if p in ('eq', 'ne') and b[1] in (0, 1):
                return self.assume(st, a, (b[1] == 1) == (p == 'eq'))
            if p in ('eq', 'ne'):
                return [st] if p == 'ne' else []
            r = []
            for t in (0, 1):
                if self._cc(p, t, b[1]):
                    r += self.assume(st.clone(), a, bool(t))
            return r
        if b[0] in ('b', 'not', 'and', 'or') and a[0] == 'i':
            return self.cmp(st, self.SWAP[p], b, a)
        if a[0] == 'u' or b[0] == 'u' or a[0] == 'x' or b[0] == 'x':
            return [st]
        if a[0] == 'i' and b[0] == 'i':
            return [st] if self._cc(p, a[1], b[1]) else []
        if a[0] == 'i':
            return self.cmp(st, self.SWAP[p], b, a)
        # identical or affine in the same symbol
        if a == b:
            return [st] if p in ('eq', 'sle', 'sge', 'ule', 'uge') else []
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return [st] if self._cc(p, a[2], b[2]) else []
                return self.cmp(st, {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(p, p),
                                ('i', a[2]) if isinstance(a[2], int) else a[2],
                                ('i', b[2]) if isinstance(b[2], int) else b[2])
            if a[1][0] in 'agh' and b[1][0] in 'agh' and p in ('eq', 'ne'):
                return [st] if p == 'ne' else []
            if p in ('eq', 'ne'):
                # a fresh local object never equals a pointer that existed before
                ra, rb = self.rng(st, a), self.rng(st, b)
                if not iv_and(ra, rb):
                    return [st] if p == 'ne' else []
                return self._rel(st, p, a, b)
            return [st]
        if a[0] == 'f' or b[0] == 'f':
            if a[0] == b[0] == 'f' and p in ('eq', 'ne'):
                return [st] if (a == b) == (p == 'eq') else []
            if b == NULL:
                return [st] if p in ('ne', 'ugt') else []
            return [st]
        ra, rb = self.rng(st, a), self.rng(st, b)
        if p in ('ult', 'ule', 'ugt', 'uge'):
            if ra[0][0] >= 0 and rb[0][0] >= 0:
                p = 's' + p[1:]
            elif b[0] == 'i' and b[1] >= 0:
                n = b[1]
                inside = {'ult': ((0, n - 1),) if n else (), 'ule': ((0, n),),
                          'uge': ((-INF, -1), (n, INF)), 'ugt': ((-INF, -1), (n + 1, INF))}[p]
                return [st] if inside and self.refine(st, a, inside) else []
            elif p in ('ult', 'ule') and rb[0][0] >= 0:
                # x <u y with y non-negative: 0 <= x < y
                if not self.refine(st, a, ((0, INF),)):
                    return []
                ra = self.rng(st, a)
                p = 's' + p[1:]
            elif p in ('ugt', 'uge') and ra[0][0] >= 0:
                if not self.refine(st, b, ((0, INF),)):
                    return []
                rb = self.rng(st, b)
                p = 's' + p[1:]
            else:
                return self._rel(st, p, a, b)
        if b[0] == 'i':
            n = b[1]
            iv = {'eq': ((n, n),), 'ne': ((-INF, n - 1), (n + 1, INF)), 'slt': ((-INF, n - 1),), 'sle': ((-INF, n),),
                  'sgt': ((n + 1, INF),), 'sge': ((n, INF),)}[p]
            return [st] if self.refine(st, a, iv) else []
        (la, ha), (lb, hb) = iv_hull(ra), iv_hull(rb)
        if p == 'eq':
            r = iv_and(ra, rb)
            if not r or not self.refine(st, a, r) or not self.refine(st, b, r):
                return []
        elif p == 'ne':
            if la == ha == lb == hb:
                return []
            if la == ha and not self.refine(st, b, ((-INF, la - 1), (la + 1, INF))):
                return []
            if lb == hb and not self.refine(st, a, ((-INF, lb - 1), (lb + 1, INF))):
                return []
        else:
            s = 1 if p in ('slt', 'sgt') else 0
            if p in ('slt', 'sle'):
                ok = self.refine(st, a, ((-INF, hb - s),)) and self.refine(st, b, ((la + s, INF),))
            else:
                ok = self.refine(st, a, ((lb + s, INF),)) and self.refine(st, b, ((-INF, ha - s),))
            if not ok:
                return []
        return self._rel(st, p, a, b)

    RELS = {'eq': '=', 'ne': '<>', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '=>'}
    def _rel(self, st, p, a, b):
        """remember an ordering between two symbolic values"""
        fa = frozenset(self.RELS.get(p, '<=>'))
        if p in ('ult', 'ule', 'ugt', 'uge'):
            key = ('urel',)
            fa = frozenset(self.RELS['s' + p[1:]])
        else:
            key = ('rel',)
        if p in ('eq', 'ne'):
            pass
        ca = cb = 0
        if a[0] == '+':
            ca, a = a[2], ('s', a[1])
        if b[0] == '+':
            cb, b = b[2], ('s', b[1])
        k = key + (a, b, cb - ca)
        if (str(b), str(a)) < (str(a), str(b)):
            k = key + (b, a, ca - cb)
            fa = frozenset({'<': '>', '>': '<', '=': '='}[x] for x in fa)
        old = st.con.get(k)
        new = fa if old is None else old & fa
        if not new:
            return []
        if len(new) < 3:
            st.con[k] = new
        return [st]

    @staticmethod
    def _cc(p, x, y):
        if p[0] == 'u':
            x, y = x & (2**64 - 1), y & (2**64 - 1)
            p = 's' + p[1:]
        return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]

    # ---------- memory
    def objsize(self, base):
        k = base[0]
        if k == 'g':
            for m in [self.mod] + self.prog.mods:
                g = m.globals.get(base[1])
                if g and g.get("sz") is not None:
                    return g["sz"]
            return None
        return None

    def base_of(self, v):
        """pointer value -> (base, off) or None"""
        if v[0] == 'p':
            return v[1], v[2]
        if v[0] == 's':
            return ('d', v[1]), 0
        if v[0] == '+':
            return ('d', v[1]), v[2]
        return None

    def ginit(self, name, off, size):
        """scalar at an offset of a constant global's initialiser"""
        g = self.mod.globals.get(name)
        if not g or g.get("decl"):
            for m in self.prog.mods:
                h = m.globals.get(name)
                if h and not h.get("decl"):
                    g = h
                    break
        if not g or "init" not in g:
            return None, None
        return g, const_at(g["init"], off, size)

    def read(self, st, base, off, size, I):
        if isinstance(off, int):
            c = st.mem.get((base, off))
            if c is not None and c[0] == size:
                return c[1]
            if c is None:
                # a cell that covers part of this range?
                for (b2, o2), (s2, v2) in st.mem.items():
                    if b2 == base and isinstance(o2, int) and o2 < off + size and off < o2 + s2:
                        return self.sym(st, ('r', I.id), size * 8)
            else:
                return self.sym(st, ('r', I.id), size * 8)
            if base[0] == 'g':
                g, v = self.ginit(base[1], off, size)
                if g and g.get("const") and v is not None:
                    return v
            d = st.objs.get(base, 'sym' if base[0] in 'dg' else 'undef')
            if isinstance(d, tuple) and d[0] == 'obj':
                d = d[1]
            if d == 'undef':
                return U
            if d == 'zero':
                return ('i', 0)
            n = ('m', base, off, size, d)
            if depth(n) > 10:
                n = ('r', I.id)
                return self.sym(st, n, size * 8)
            self.symw.setdefault(n, size * 8)
            v = ('s', n)
            st.mem[(base, off)] = (size, v)
            return v
        d = st.objs.get(base, 'sym' if base[0] in 'dg' else 'undef')
        if d == 'zero' and not any(b2 == base for (b2, o2) in st.mem):
            return ('i', 0)
        return self.sym(st, ('r', I.id), size * 8)

    def write(self, st, base, off, size, val):
        if isinstance(off, int):
            dead = [k for k, (s2, _) in st.mem.items() if k[0] == base and isinstance(k[1], int)
                    and k[1] < off + size and off < k[1] + s2 and k[1] != off]
            for k in dead:
                del st.mem[k]
            st.mem[(base, off)] = (size, val)
        else:
            self.havoc(st, base, ('w', base), *(self.span(st, off, ('i', size)) if base[0] != 'a' else ()))

    def havoc(self, st, base, ver, lo=None, hi=None):
        """unknown contents from now on (for bytes lo..hi-1, or everything)"""
        if lo is None:
            for k in [k for k in st.mem if k[0] == base]:
                del st.mem[k]
            st.objs[base] = ('v', ver)
            return
        for k in [k for k in st.mem if k[0] == base and isinstance(k[1], int)
                  and k[1] < hi and lo < k[1] + st.mem[k][0]]:
            del st.mem[k]
        d = st.objs.get(base, 'sym' if base[0] in 'dg' else 'undef')
        st.objs[base] = ('v', ver)

    # ---------- operands
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            v = st.env.get(o[1])
            return v if v is not None else ('x',)
        return o

    def vals(self, st, I):
        return [self.val(st, o) for o in I.args]

    # ---------- running
    def run(self):
        F = self.F
        st = State()
        for i, (aid, nm, t) in enumerate(F.args):
            n = ('arg', i)
            self.symw[n] = WIDTH.get(t, 64)
            st.env[aid] = ('p', ('d', n), 0) if t == 'ptr' else ('s', n)
        self.ck.start(self, st)
        heap = []
        cnt = itertools.count()
        self.pending = {}
        def push(b, s):
            if self.ck.simplify:
                self.ck.simplify(self, s, b)
            self.gc(s, b)
            k = s.key()
            seen = self.seen.setdefault(b, {})
            if k in seen:
                return
            if len(seen) >= self.CAP:
                s = self.joined(b, s, seen)
                if s is None:
                    return
                k = s.key()
                if k in seen:
                    return
            seen[k] = s
            heapq.heappush(heap, (F.rpo[b], next(cnt), b, s))
        push(F.entry, st)
        while heap:
            _, _, b, s = heapq.heappop(heap)
            for nb, ns in self.block(b, s.clone()):
                push(nb, ns)
        return self

    def joined(self, b, s, seen):
        """widen a state: forget integer knowledge that is not part of the property state"""
        self.joins += 1
        if len(seen) > 4 * self.CAP:
            self.exhausted = True
            raise Budget("state budget exceeded in %s block %s" % (self.F.name, b))
        psyms = [x for x in list(s.ps) + list(s.ps.values()) if isinstance(x, tuple)]
        s.con = {k: v for k, v in s.con.items()
                 if (isinstance(v, tuple) and v in (((0, 0),), ((1, INF),), ((-INF, -1), (1, INF)))) and
                 any(mentions(p, k) for p in psyms)}
        return s

    def gc(self, st, b):
        live = self.F.livephi[b]
        env = {k: v for k, v in st.env.items() if k in live}
        st.env = env
        # reachable bases
        roots = list(env.values()) + [('p', ('d', ('arg', i)), 0) for i in range(len(self.F.args))]
        weak = self.ck.weak
        if self.ck.keep is not None:
            roots += [x for x in {k[0] for k in st.mem} if x[0] == 'd' and self.ck.keep(x)]
        if not weak:
            for k, v in st.ps.items():
                if isinstance(k, tuple):
                    roots.append(k)
                if isinstance(v, tuple):
                    roots.append(v)
        names, bases = set(), set()
        work = list(roots)
        cells = {}
        for k, (sz, v) in st.mem.items():
            cells.setdefault(k[0], []).append(v)
            if k[0][0] == 'g':
                bases.add(k[0])
                work.append(v)
        allocas = live | self.escaped_allocas
        for k in cells:
            if k[0] == 'a' and k[1] in allocas and k not in bases:
                bases.add(k)
                work += cells[k]
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if v and v[0] in ('a', 'g', 'h', 'd') and len(v) == 2:
                if v not in bases:
                    bases.add(v)
                    work += cells.get(v, ())
                if v[0] == 'd':
                    work.append(v[1])
                continue
            if v in names:
                continue
            names.add(v)
            if v and v[0] == 's' and len(v) == 2:
                bd = ('d', v[1])
                if bd not in bases:
                    bases.add(bd)
                    work += cells.get(bd, ())
            for y in v:
                if isinstance(y, tuple):
                    work.append(y)
        def live_q(k):
            return all(a[0] == 'i' or a in names or (a[0] == 'p' and a[1] in bases) or
                       (a[0] in 's+' and a[1] in names) for a in k[2:])
        qs = [k for k in st.mem if k[0][0] == 'q' and live_q(k[0])]
        for k in qs:
            v = st.mem[k][1]
            if v[0] == 'p':
                bases.add(v[1])
                names.add(v[1][1])
        st.mem = {k: v for k, v in st.mem.items() if k[0] in bases or k in qs}
        st.objs = {k: v for k, v in st.objs.items() if k in bases}
        outs = {n[1] for n in names if isinstance(n, tuple) and n and n[0] == 'out' and len(n) > 1}
        def keep(k):
            if k[0] in ('rel', 'urel'):
                return keepv(k[1]) and keepv(k[2]) or any(mentions(x, p) for p in self.ck.pins for x in k[1:3])
            if k[0] == 'get' and k not in names:
                return all(keepv(a) for a in k[2:])
            if k[0] == 'out' and len(k) > 1:
                return k[1] in outs
            if k[0] == 'op' and k[1] in ('srem', 'urem') and k not in names and st.con[k] == ((0, 0),):
                return keepv(k[2])
            return k in names
        def keepv(v):
            return v in names or (v[0] in ('s', '+') and (v[1] in names or v[1][0] == 'get' and keep(v[1]))) or \
                (v[0] == 'p' and (v[1] in bases))
        st.con = {k: v for k, v in st.con.items() if keep(k)}
        if weak:
            self.ck.prune(self, st, bases, b)

    @property
    def escaped_allocas(self):
        e = getattr(self, "_esc", None)
        if e is None:
            e = set()
            for b in self.F.order:
                for I in self.F.blocks[b]:
                    if I.op == "store" and I.args[0][0] == 'v':
                        J = self.F.ins.get(I.args[0][1])
                        while J is not None and J.op == "getelementptr" and J.j["b"][0] == 'v':
                            J = self.F.ins.get(J.j["b"][1])
                        if J is not None and J.op == "alloca":
                            e.add(J.id)
                    if I.op == "phi":
                        for v in I.j["in"].values():
                            if v[0] == 'v' and v[1] in self.F.ins and self.F.ins[v[1]].op in ("alloca", "getelementptr"):
                                J = self.F.ins[v[1]]
                                while J is not None and J.op == "getelementptr" and J.j["b"][0] == 'v':
                                    J = self.F.ins.get(J.j["b"][1])
                                if J is not None and J.op == "alloca":
                                    e.add(J.id)
            self._esc = e
        return e

    def edge(self, st, b, nb):
        """enter nb from b: evaluate phis, widen at loop headers"""
        F = self.F
        vals = []
        for I in F.blocks[nb]:
            if I.op != "phi":
                break
            vals.append((I, self.val(st, I.j["in"].get(b, ('x',)))))
        hdr = nb in F.headers
        for I, v in vals:
            c = self.ck.coarse(self, st, I, v) if hdr and self.ck.coarse else None
            if c is not None:
                v = c
            elif hdr:
                k = (nb, I.id) if self.ck.widen_class is None else (nb, I.id, self.ck.widen_class(self, st, v))
                v = self.widen(st, k, v, WIDTH.get(I.t, 64), ('phi', I.id))
            st.env[I.id] = v
        if hdr and (b, nb) in F.back:
            cl = (self.ck.widen_class(self, st, None),) if self.ck.widen_cells else ()
            for k in list(st.mem):
                c = st.mem.get(k)
                if c is None:
                    continue
                sz, v = c
                if v[0] in ('i', '+') or (v[0] == 's' and v[1][0] in ('op', 'r', 'o', 'z', 't', 'mphi', 'phi', 'ix')):
                    nv = self.widen(st, (nb, k) + cl, v, sz * 8, ('mphi', nb, k))
                    if nv != v and k in st.mem:
                        st.mem[k] = (sz, nv)
        return [(nb, st)]

    def widen(self, st, key, v, w, name):
        rec = self.wid.setdefault(key, {"seen": [], "rng": None, "n": 0})
        if rec["rng"] is None and rec.get("top") is None:
            kind = v
            if kind in rec["seen"]:
                return v
            if v[0] in ('i', '+') or (v[0] == 'p' and v[2] != 0):
                if len(rec["seen"]) < 3:
                    rec["seen"].append(kind)
                    return v
            elif v[0] in ('s', 'b', 'not', 'and', 'or', 'p', 'f'):
                if len(rec["seen"]) < (4 if v[0] == 's' and v[1][0] in ('op', 'r', 'o', 'z', 't') else 12):
                    rec["seen"].append(kind)
                    return v
            else:
                return v
            rec["rng"] = ()
            for x in rec["seen"]:
                if x[0] == 'i':
                    rec["rng"] = iv_or(rec["rng"], ((x[1], x[1]),))
        # widened
        if v[0] == 'p':
            if isinstance(v[2], int):
                r = ((v[2], v[2]),)
            else:
                r = self.rng(st, v[2])
            nm = (name[0] + "o",) + name[1:]
            key2 = "o"
            rr = self._wide(rec, key2 + str(v[1]), r)
            off = self.sym2(st, nm, 64, rr)
            return ('p', v[1], off)
        if v[0] in ('f', 'u', 'x'):
            return v
        r = self.rng(st, v)
        rr = self._wide(rec, "rng", r, w)
        return self.sym2(st, name, w, rr)

    def sym2(self, st, name, w, rng):
        s = self.sym(st, name, w)
        st.con[name] = rng
        return s

    def _wide(self, rec, key, r, w=64):
        old = rec.get(key) or ()
        if not old:
            new = (iv_hull(r),)
        elif iv_and(r, old) == r:
            return old
        else:
            (lo, hi), (l2, h2) = iv_hull(old), iv_hull(r)
            rec["n"] += 1
            if l2 < lo:
                if rec["n"] > 3:
                    c = [x for x in self.F.consts if x <= l2]
                    lo = max(c) if c and rec["n"] < 12 else -INF
                else:
                    lo = l2
            if h2 > hi:
                if rec["n"] > 3:
                    c = [x for x in self.F.consts if x >= h2]
                    hi = min(c) if c and rec["n"] < 12 else INF
                else:
                    hi = h2
            new = ((lo, hi),)
        rec[key] = new
        return new

    def block(self, b, st):
        F = self.F
        states = [st]
        self.ck.block(self, st, b)
        ins = F.blocks[b]
        for I in ins[:-1]:
            if I.op == "phi":
                continue
            nxt = []
            for s in states:
                self.steps += 1
                nxt += self.exec(s, I)
            states = nxt
            if not states:
                return []
        if self.steps > self.MAXSTEPS:
            self.exhausted = True
            raise Budget("step budget exceeded in %s" % F.name)
        T = ins[-1]
        out = []
        for s in states:
            out += self.term(s, T, b)
        return out

    def term(self, st, T, b):
        if T.op == "ret":
            v = self.val(st, T.args[0]) if T.args else None
            if v is not None and v[0] in ('b', 'not', 'and', 'or'):
                for t in (0, 1):
                    for s in self.assume(st.clone(), v, bool(t)):
                        self.ck.ret(self, s, T, ('i', t))
                return []
            self.ck.ret(self, st, T, v)
            return []
        if T.op == "br":
            if "c" not in T.j:
                return self.edge(st, b, T.j["s"][0])
            c = self.val(st, T.j["c"])
            out = []
            t, f = T.j["s"]
            if t == f:
                return self.edge(st, b, t)
            ts = self.assume(st.clone(), c, True)
            fs = self.assume(st, c, False)
            both = bool(ts) and bool(fs)
            for ss, nb, taken in ((ts, t, True), (fs, f, False)):
                for s in ss:
                    if both:
                        s.note((T.line, T.fn, "branch " + ("true" if taken else "false")))
                    if self.ck.branch(self, s, T, c, taken):
                        out += self.edge(s, b, nb)
            return out
        if T.op == "switch":
            c = self.val(st, T.j["c"])
            out = []
            rest = [st]
            bydest = {}
            for n, d in T.j["cs"]:
                nrest = []
                for s in rest:
                    for x in self.cmp(s.clone(), 'eq', c, ('i', n)):
                        x.note((T.line, T.fn, "case %d" % n))
                        if self.ck.branch(self, x, T, ('b', 'eq', c, ('i', n)), True):
                            out += self.edge(x, b, d)
                    nrest += self.cmp(s, 'ne', c, ('i', n))
                rest = nrest
            for s in rest:
                s.note((T.line, T.fn, "default"))
                out += self.edge(s, b, T.j["d"])
            return out
        return []       # unreachable

    # ---------- instructions
    def exec(self, st, I):
        op = I.op
        if op == "call":
            return self.call(st, I)
        if op == "load":
            p = self.val(st, I.args[0])
            sz = I.j["sz"]
            if self.ck.load(self, st, I, p, sz) is False:
                return []
            bo = self.base_of(p)
            if bo is None:
                st.env[I.id] = self.sym(st, ('r', I.id), sz * 8)
            else:
                v = self.read(st, bo[0], bo[1], sz, I)
                if I.t == 'ptr' and v[0] == 's':
                    v = ('p', ('d', v[1]), 0)
                st.env[I.id] = v
            self.ck.loaded(self, st, I, p, st.env[I.id])
            return [st]
        if op == "store":
            v, p = self.val(st, I.args[0]), self.val(st, I.args[1])
            if self.ck.store(self, st, I, p, v, I.j["sz"]) is False:
                return []
            bo = self.base_of(p)
            if bo is not None:
                if v[0] == 'x':
                    v = self.sym(st, ('w', I.id), I.j["sz"] * 8)
                self.write(st, bo[0], bo[1], I.j["sz"], v)
            return [st]
        if op == "alloca":
            b = ('a', I.id)
            st.env[I.id] = ('p', b, 0)
            return [st]
        if op == "getelementptr":
            p = self.val(st, I.j["b"])
            off = I.j["o"]
            var = None
            n = 0
            for v, s in I.j["vo"]:
                x = self.val(st, v)
                if x[0] == 'i':
                    off += x[1] * s
                elif x[0] in ('s', '+') and s == 1 and var is None:
                    var = x
                    n += 1
                else:
                    r = self.rng(st, x)
                    l, h = iv_hull(r)
                    nm = ('ix', I.id, n)
                    lo = l * s if l > -INF else -INF
                    hi = h * s if h < INF else INF
                    y = self.sym2(st, nm, 64, ((min(lo, hi), max(lo, hi)),))
                    if var is not None:
                        (l1, h1), (l2, h2) = iv_hull(self.rng(st, var)), iv_hull(self.rng(st, y))
                        var = self.sym2(st, ('ix2', I.id, n), 64, ((max(l1 + l2, -INF), min(h1 + h2, INF)),))
                    else:
                        var = y
                    n += 1
            st.env[I.id] = self.gep(st, p, off, var, I)
            return [st]
        if op == "icmp":
            a, b = self.vals(st, I)
            v = ('b', I.j["p"], a, b)
            # decide now when the operands are constants
            if a[0] == 'i' and b[0] == 'i':
                v = ('i', int(self._cc(I.j["p"], a[1], b[1])))
            elif a[0] == 'x' or b[0] == 'x':
                v = self.sym(st, ('r', I.id), 1, ((0, 1),))
            else:
                v = self.decide(st, v)
                if depth(v) > 12:
                    v = self.sym(st, ('r', I.id), 1, ((0, 1),))
            st.env[I.id] = v
            return [st]
        if op in ("zext", "sext", "trunc", "bitcast", "inttoptr", "ptrtoint", "freeze"):
            st.env[I.id] = self.cast(st, I, self.val(st, I.args[0]))
            return [st]
        if op == "select":
            c, a, b = self.vals(st, I)
            out = []
            for truth, v in ((True, a), (False, b)):
                for s in self.assume(st.clone(), c, truth):
                    s.env[I.id] = v
                    out.append(s)
            return out
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            st.env[I.id] = self.arith(st, I, *self.vals(st, I))
            return [st]
        if I.t:
            st.env[I.id] = self.sym(st, ('r', I.id), WIDTH.get(I.t, 64))
        return [st]

    def gep(self, st, p, off, var, I):
        bo = self.base_of(p)
        if bo is None:
            if p == NULL:
                return ('p', ('d', ('nul',)), off)
            return ('p', ('d', ('r', I.id)), off)
        base, o = bo
        if var is None:
            if isinstance(o, int):
                return ('p', base, o + off)
            r = self.add(st, o, off)
            return ('p', base, r)
        if isinstance(o, int):
            r = self.add(st, var, o + off)
            return ('p', base, r)
        (l1, h1), (l2, h2) = iv_hull(self.rng(st, o)), iv_hull(self.rng(st, var))
        lo = max(l1 + l2 + off, -INF) if l1 > -INF and l2 > -INF else -INF
        hi = min(h1 + h2 + off, INF) if h1 < INF and h2 < INF else INF
        n = ('gx', I.id)
        if self.ck.exact_offsets and adepth(('s', ('op', 'add', o, var))) < 6:
            n = ('op', 'add', o, var if not off else self.add(st, var, off))
        return ('p', base, self.sym2(st, n, 64, ((lo, hi),)))

    def cast(self, st, I, v):
        w = WIDTH.get(I.t, 64)
        fw = WIDTH.get(I.j.get("ft"), 64)
        if v[0] == 'i':
            n = v[1]
            if I.op == "zext":
                n &= (1 << fw) - 1
                if w <= 64:
                    pass
            elif I.op == "trunc":
                n &= (1 << w) - 1
                if n >> (w - 1):
                    n -= 1 << w
            return ('i', n)
        if v[0] in ('b', 'not', 'and', 'or'):
            if I.op == "zext":
                return v
            if I.op == "trunc":
                return v
            return self.sym(st, ('r', I.id), w)
        if I.op in ("inttoptr",):
            return ('p', ('d', v[1]), 0) if v[0] == 's' else v
        if I.op in ("ptrtoint", "bitcast", "freeze"):
            return v
        if v[0] in ('s', '+'):
            r = self.rng(st, v)
            lo, hi = iv_hull(r)
            if I.op == "zext":
                if lo >= 0:
                    return v
                n = ('z', v)
                if depth(n) > 10:
                    return self.sym(st, ('r', I.id), w, ((0, (1 << fw) - 1),))
                self.symw.setdefault(n, w)
                rr = tuple((l, h) for l, h in r if l >= 0)
                neg = tuple((max(l, -(1 << (fw - 1))) + (1 << fw), min(h, -1) + (1 << fw)) for l, h in r if l < 0)
                st.con.setdefault(n, iv_or(rr + tuple((0, h) for l, h in r if l < 0 <= h), neg))
                return ('s', n)
            if I.op == "sext":
                return v
            if I.op == "trunc":
                if w == 1:
                    n = ('t1', v)
                    self.symw.setdefault(n, 1)
                    st.con.setdefault(n, ((0, 1),))
                    return ('s', n)
                if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
                    return v
                # size_t -> int of a length: keep identity when the value is a whole symbol
                n = ('t', w, v)
                if depth(n) > 10:
                    return self.sym(st, ('r', I.id), w)
                self.symw.setdefault(n, w)
                return ('s', n)
        if I.op == "zext" and v[0] == 'u':
            return v
        return self.sym(st, ('r', I.id), w)

    def arith(self, st, I, a, b):
        v = self.arith0(st, I, a, b)
        if v[0] in ('b', 'not', 'and', 'or') and depth(v) > 14:
            return self.sym(st, ('r', I.id), WIDTH.get(I.t, 64), ((0, 1),))
        return v

    def arith0(self, st, I, a, b):
        op = I.op
        w = WIDTH.get(I.t, 64)
        if a[0] == 'u' or b[0] == 'u':
            return U
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == "add": r = x + y
                elif op == "sub": r = x - y
                elif op == "mul": r = x * y
                elif op == "and": r = x & y
                elif op == "or": r = x | y
                elif op == "xor": r = x ^ y
                elif op == "shl": r = x << y
                elif op == "lshr": r = (x & ((1 << w) - 1)) >> y
                elif op == "ashr": r = x >> y
                elif op == "sdiv": r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                elif op == "udiv": r = (x & ((1 << w) - 1)) // (y & ((1 << w) - 1))
                elif op == "srem": r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                else: r = (x & ((1 << w) - 1)) % (y & ((1 << w) - 1))
            except (ZeroDivisionError, ValueError):
                return self.sym(st, ('r', I.id), w)
            r &= (1 << w) - 1
            if r >> (w - 1) and w > 1:
                r -= 1 << w
            return ('i', r)
        if w == 1:
            bl = ('b', 'not', 'and', 'or')
            if op == "xor" and b[0] == 'i':
                return ('not', a) if b[1] & 1 else a
            if op == "and":
                return ('and', a, b)
            if op == "or":
                return ('or', a, b)
        if op == "xor" and b[0] == 'i' and b[1] in (1,) and a[0] in ('b', 'not', 'and', 'or'):
            return ('not', a)
        if op in ("and", "or") and a[0] in ('b', 'not', 'and', 'or') and b[0] in ('b', 'not', 'and', 'or'):
            return (op, a, b)
        if op == "add":
            if b[0] == 'i':
                r = self.add(st, a, b[1])
                if r: return r
            if a[0] == 'i':
                r = self.add(st, b, a[1])
                if r: return r
        if op == "sub":
            if b[0] == 'i':
                r = self.add(st, a, -b[1])
                if r: return r
            if a == b:
                return ('i', 0)
            if a[0] in 's+' and b[0] in 's+' and a[1] == b[1]:
                return ('i', (a[2] if a[0] == '+' else 0) - (b[2] if b[0] == '+' else 0))
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                x, y = a[2], b[2]
                if isinstance(x, int) and isinstance(y, int):
                    return ('i', x - y)
                if isinstance(y, int):
                    r = self.add(st, x, -y)
                    if r: return r
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if y == ('i', 1): return x
                if y == ('i', 0): return y
        if op == "shl" and b == ('i', 0): return a
        ra, rb = self.rng(st, a), self.rng(st, b)
        (la, ha), (lb, hb) = iv_hull(ra), iv_hull(rb)
        rng = None
        fin = lambda *x: all(-INF < y < INF for y in x)
        tr = trange(w)
        if op == "add" and fin(la, ha, lb, hb):
            rng = ((la + lb, ha + hb),)
        elif op == "sub" and fin(la, ha, lb, hb):
            rng = ((la - hb, ha - lb),)
        elif op == "mul" and fin(la, ha, lb, hb):
            c = [la * lb, la * hb, ha * lb, ha * hb]
            rng = ((min(c), max(c)),)
        elif op == "and":
            for x, l, h in ((b, lb, hb), (a, la, ha)):
                if x[0] == 'i' and x[1] >= 0:
                    rng = ((0, x[1]),)
            if rng is None and la >= 0 and lb >= 0:
                rng = ((0, min(ha, hb)),)
            if b[0] == 'i' and b[1] < 0 and la >= 0:
                rng = ((0, ha),)
        elif op in ("or", "xor") and la >= 0 and lb >= 0 and fin(ha, hb):
            rng = ((max(la, lb) if op == "or" else 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1),)
        elif op == "urem" and lb > 0 and fin(hb):
            rng = ((0, hb - 1),)
        elif op == "srem" and lb > 0 and fin(hb):
            rng = ((-(hb - 1) if la < 0 else 0, hb - 1),)
        elif op in ("udiv", "sdiv") and b[0] == 'i' and b[1] > 0 and la >= 0:
            rng = ((la // b[1], ha // b[1] if ha < INF else INF),)
        elif op in ("lshr", "ashr") and b[0] == 'i' and la >= 0:
            rng = ((la >> b[1], ha >> b[1] if ha < INF else INF),)
        elif op == "lshr" and b[0] == 'i' and 0 < b[1] < w:
            rng = ((0, ((1 << w) - 1) >> b[1]),)
        elif op == "udiv" and b[0] == 'i' and b[1] > 1:
            rng = ((0, ((1 << w) - 1) // b[1]),)
        elif op == "shl" and b[0] == 'i' and fin(la, ha):
            rng = ((la << b[1], ha << b[1]),)
        if rng is not None and w <= 64 and not (tr[0][0] <= rng[0][0] and rng[0][1] <= tr[0][1]):
            rng = None if w < 64 else (iv_and(rng, tr) or None)
        n = ('op', op, a, b) if w >= 8 else ('r', I.id)
        if depth(n) > 8 and adepth(n) > 4:
            n = ('r', I.id)
            return self.sym(st, n, w, rng)
        self.symw.setdefault(n, w)
        if rng is not None and n not in st.con:
            st.con[n] = rng
        elif rng is not None:
            r2 = iv_and(st.con[n], rng)
            if r2:
                st.con[n] = r2
        return ('s', n)

    # ---------- calls
    def call(self, st, I):
        args = self.vals(st, I)
        callee = I.callee
        if callee is None:
            cv = self.val(st, I.j["cv"]) if "cv" in I.j else ('x',)
            if cv[0] == 'f':
                callee = cv[1]
        r = self.ck.call(self, st, I, callee, args)
        if r is not None:
            out = []
            for s, v in r:
                if I.t:
                    s.env[I.id] = v
                out.append(s)
            return out
        return self.default_call(st, I, callee, args)

    def default_call(self, st, I, callee, args):
        w = WIDTH.get(I.t, 64) if I.t else None
        if callee and callee.startswith("llvm."):
            return self.intrinsic(st, I, callee, args)
        if callee in ("memcpy", "memmove", "memset"):
            return self.intrinsic(st, I, "llvm.%s.p0" % callee, args)
        self.calls_seen.add((callee, I.id))
        A = API.get(callee)
        fork = self.ck.want_fork(callee, I) if self.ck.want_fork else False
        if A is not None:
            return self.api_call(st, I, A, args, fork, w)
        # a function of the repository (or an indirect call)
        F = self.prog.fn.get(callee) if callee else None
        pure = ('get', callee) + tuple(args) if F is not None and CV.pure(self.prog, callee) else None
        if pure is not None and depth(pure) > 9:
            pure = None
        for i, a in enumerate(args):
            bo = self.base_of(a) if a[0] in ('p',) else None
            if bo is None or pure is not None:
                continue
            t = F.argt[i] if F is not None and i < len(F.argt) else ""
            if F is not None and (t.startswith("const ") or (i == 0 and callee.startswith("i2d_")) or
                                  CV.FREES_ARG.get(callee) == i):
                continue
            if bo[0][0] == 'g' and self.is_const_global(bo[0][1]):
                continue
            self.havoc_deep(st, bo[0], ('c', I.id))
            self.forget_gets(st, a)
        if I.t is None:
            self.ck.after(self, st, I, callee, args, None, None)
            return [st]
        rt = F.ret if F is not None else I.t
        if I.t == 'ptr':
            out = []
            if fork:
                s2 = st.clone()
                s2.env[I.id] = NULL
                s2.note((I.line, I.fn, "%s() fails" % callee))
                self.ck.after(self, s2, I, callee, args, NULL, False)
                out.append(s2)
                b = self.fresh(st, I)
                st.env[I.id] = ('p', b, 0)
                st.objs[b] = ('v', ('c', I.id))
                self.ck.after(self, st, I, callee, args, st.env[I.id], True)
                out.append(st)
                return out
            n = ('ret', I.id)
            if pure is not None:
                n = pure
                self.symw.setdefault(n, 64)
            else:
                self.sym(st, n, 64)
            st.env[I.id] = ('p', ('d', n), 0)
            self.ck.after(self, st, I, callee, args, st.env[I.id], None)
            return [st]
        n = ('ret', I.id)
        if fork:
            fr = self.ck.fail_range(callee, I) if hasattr(self.ck, "fail_range") else ((-2, 0), (1, 2**31 - 1))
            s2 = st.clone()
            s2.env[I.id] = self.sym(s2, n, w, (fr[0],))
            s2.note((I.line, I.fn, "%s() fails" % callee))
            self.ck.after(self, s2, I, callee, args, s2.env[I.id], False)
            st.env[I.id] = self.sym(st, n, w, (fr[1],))
            self.ck.after(self, st, I, callee, args, st.env[I.id], True)
            return [s2, st]
        if pure is not None and w is not None:
            self.symw.setdefault(pure, w)
            st.env[I.id] = ('s', pure)
        else:
            st.env[I.id] = self.sym(st, n, w)
        self.ck.after(self, st, I, callee, args, st.env[I.id], None)
        return [st]

    def forget_gets(self, st, a):
        """what getters told about the object a is out of date"""
        for n in [n for n in self.symw if n[0] == 'get' and a in n[2:]]:
            if n[1] in self.ck.stable:
                self.havoc(st, ('d', n), ('c', 'x'))
            elif n in st.con or self._used(st, n):
                self.rename(st, n)
        for k in [k for k in st.mem if k[0][0] == 'q' and a in k[0][2:]]:
            del st.mem[k]

    def is_const_global(self, n):
        for m in [self.mod] + self.prog.mods:
            g = m.globals.get(n)
            if g and not g.get("decl"):
                return bool(g.get("const"))
        return False

    def havoc_deep(self, st, base, ver, d=0, seen=None):
        seen = seen if seen is not None else set()
        if base in seen or d > 3:
            return
        seen.add(base)
        inner = [v for (b, o), (s, v) in st.mem.items() if b == base and v[0] == 'p']
        self.havoc(st, base, ver)
        for v in inner:
            if v[1][0] != 'g' or not self.is_const_global(v[1][1]):
                self.havoc_deep(st, v[1], ver, d + 1, seen)

    def fresh(self, st, I):
        b = ('h', I.id)
        if b in st.objs or any(mentions(v, b) for v in st.env.values()) or any(mentions(x, b) for x in st.ps):
            self.ck.lost(self, st, I, b)
            self.rename(st, b, ('h', ('o', I.id)))
        return b

    def api_call(self, st, I, A, args, fork, w):
        if A.noret:
            self.ck.after(self, st, I, A.name, args, None, None)
            return []
        def effects(s, ok):
            if A.wipe is not None and A.name == "OPENSSL_cleanse":
                pass
            for i in A.out:
                if i < len(args):
                    a = args[i]
                    bo = self.base_of(a) if a[0] == 'p' else None
                    if bo is not None:
                        self.out_write(s, I, bo, i)
            for i in A.outp + A.outP:
                if i < len(args) and args[i][0] == 'p':
                    b, o = args[i][1], args[i][2]
                    n = ('out', I.id, i)
                    self.sym(s, n, 64)
                    if i in A.outP:
                        s.con[n] = ((1, INF),)
                    if isinstance(o, int):
                        self.write(s, b, o, 8, ('p', ('d', n), 0))
            if ok is not False:
                for i, kind in A.outalloc.items():
                    if i < len(args) and args[i][0] == 'p' and isinstance(args[i][2], int):
                        b, o = args[i][1], args[i][2]
                        if A.name in ("BN_hex2bn", "BN_dec2bn"):
                            old = s.mem.get((b, o))
                            if old is not None and old[1][0] == 'p' and not self.cmp(s.clone(), 'eq', old[1], NULL):
                                continue
                        nb = ('h', I.id)
                        s.objs[nb] = ('v', ('c', I.id))
                        self.write(s, b, o, 8, ('p', nb, 0))
            if MUTNAME.search(A.name) and A.name not in SETGET and args and args[0][0] == 'p' and ok is not False:
                self.forget_gets(s, args[0])
            if A.name in SETGET and ok is not False and len(args) > 1:
                oi, vi, g = SETGET[A.name]
                nm = ('get', g, args[oi])
                if nm in s.con or self._used(s, nm):
                    self.rename(s, nm)
                s.mem.pop((('q', g, args[oi]), 0), None)
                if vi is not None:
                    s.mem[(('q', g, args[oi]), 0)] = (8, args[vi])
                else:
                    self.symw.setdefault(nm, 64)
                    s.con[nm] = ((1, INF),)
            if A.name in MUT0 and args and args[0][0] == 'p':
                self.havoc(s, args[0][1], ('c', I.id))
        if A.name == "BN_CTX_end":
            st.ps.pop("bnctx", None)
        if I.t is None:
            effects(st, None)
            self.ck.after(self, st, I, A.name, args, None, None)
            return [st]
        n = ('ret', I.id)
        if A.name == "BN_CTX_get" and fork:
            # a context that failed once keeps failing until the end of the frame
            if "bnctx" in st.ps:
                st.env[I.id] = NULL
                self.ck.after(self, st, I, A.name, args, NULL, False)
                return [st]
            s2 = st.clone()
            s2.ps["bnctx"] = 1
            s2.env[I.id] = NULL
            s2.note((I.line, I.fn, "BN_CTX_get() fails"))
            self.ck.after(self, s2, I, A.name, args, NULL, False)
            self.sym(st, n, 64)
            st.con[n] = ((1, INF),)
            st.env[I.id] = ('p', ('d', n), 0)
            self.ck.after(self, st, I, A.name, args, st.env[I.id], True)
            return [s2, st]
        if A.name in INTO and len(args) > INTO[A.name] and args[INTO[A.name]][0] == 'p' and fork:
            out = []
            into = args[INTO[A.name]]
            for s in self.cmp(st.clone(), 'ne', into, NULL):
                s2 = s.clone()
                s2.env[I.id] = NULL
                s2.note((I.line, I.fn, "%s() fails" % A.name))
                self.ck.after(self, s2, I, A.name, args, NULL, False)
                effects(s, True)
                s.env[I.id] = into
                # the result is the object that was passed in, not a new one
                self.ck.after(self, s, I, A.name, args, into, True)
                out += [s2, s]
            st = (self.cmp(st, 'eq', into, NULL) or [None])[0]
            if st is None:
                return out
            return out + self.api_ptr(st, I, A, args, fork, w, effects, n)
        if A.name.startswith("d2i_") and args and args[0] != NULL and fork:
            return self.d2i(st, I, A.name, args, effects)
        if A.ret == 'p' or A.ret == 'q':
            return self.api_ptr(st, I, A, args, fork, w, effects, n)
        return self.api_int(st, I, A, args, fork, w, effects, n)

    def d2i(self, st, I, name, args, effects):
        """d2i_X(&p, ..): fills the object p points to, or stores a new one there"""
        s2 = st.clone()
        s2.env[I.id] = NULL
        s2.note((I.line, I.fn, "%s() fails" % name))
        effects(s2, False)
        self.ck.after(self, s2, I, name, args, NULL, False)
        out = [s2]
        a = args[0]
        bo = self.base_of(a)
        old = None
        if bo is not None and isinstance(bo[1], int):
            old = self.read(st, bo[0], bo[1], 8, I)
            if old[0] == 's':
                old = ('p', ('d', old[1]), 0)
        for s in (self.cmp(st.clone(), 'ne', old, NULL) if old is not None and old[0] == 'p' else []):
            effects(s, True)
            s.env[I.id] = old
            self.ck.after(self, s, I, name, args, old, True)
            out.append(s)
        for s in (self.cmp(st, 'eq', old, NULL) if old is not None and old[0] in 'pi' else [st]):
            effects(s, True)
            b = self.fresh(s, I)
            s.objs[b] = ('v', ('c', I.id))
            v = ('p', b, 0)
            s.env[I.id] = v
            if bo is not None:
                self.write(s, bo[0], bo[1], 8, v)
            self.ck.after(self, s, I, name, args, v, True)
            out.append(s)
        return out

    def api_ptr(self, st, I, A, args, fork, w, effects, n):
            out = []
            if fork:
                s2 = st.clone()
                effects(s2, False)
                s2.env[I.id] = NULL
                s2.note((I.line, I.fn, "%s() fails" % A.name))
                self.ck.after(self, s2, I, A.name, args, NULL, False)
                out.append(s2)
            effects(st, True)
            if fork or A.ret == 'p':
                if not fork:
                    # allocation without split: still may be NULL -> split anyway
                    s2 = st.clone()
                    s2.env[I.id] = NULL
                    self.ck.after(self, s2, I, A.name, args, NULL, False)
                    out.append(s2)
                b = self.fresh(st, I)
                st.objs[b] = 'zero' if A.zero else ('undef' if A.kind in ("mem", "smem", "cmem") and A.size is not None
                                                    and not A.name.endswith(("dup",)) else ('v', ('c', I.id)))
                st.env[I.id] = ('p', b, 0)
            else:
                self.sym(st, n, 64)
                st.env[I.id] = ('p', ('d', n), 0)
            self.ck.after(self, st, I, A.name, args, st.env[I.id], True)
            out.append(st)
            return out

    def api_int(self, st, I, A, args, fork, w, effects, n):
        if A.ret in ('g', 'G'):
            effects(st, None)
            known = st.mem.get((('q', A.name) + tuple(args), 0))
            if known is not None and known[1][0] in 'pi':
                st.env[I.id] = known[1]
                self.ck.after(self, st, I, A.name, args, known[1], None)
                return [st]
            if A.name in PURE:
                nm = ('get', A.name) + tuple(args)
                if depth(nm) > 9:
                    nm = n
                    self.sym(st, nm, 64)
                self.symw.setdefault(nm, 64)
            else:
                nm = n
                self.sym(st, nm, 64)
            if A.ret == 'G':
                st.con[nm] = ((1, INF),)
            st.env[I.id] = ('p', ('d', nm), 0)
            self.ck.after(self, st, I, A.name, args, st.env[I.id], None)
            return [st]
        if A.ret == 'i':
            effects(st, None)
            if A.name in PURE_INT:
                nm = ('get', A.name) + tuple(args)
                if depth(nm) > 9:
                    nm = n
                    self.sym(st, nm, w)
                self.symw.setdefault(nm, w)
                if A.lo is not None and nm not in st.con:
                    st.con[nm] = ((A.lo, A.hi),)
            else:
                nm = n
                self.sym(st, nm, w, ((A.lo, A.hi),) if A.lo is not None else None)
            st.env[I.id] = ('s', nm)
            self.ck.after(self, st, I, A.name, args, st.env[I.id], None)
            return [st]
        fr = A.fail_range()
        if fork:
            s2 = st.clone()
            effects(s2, False)
            s2.env[I.id] = self.sym(s2, n, w, (fr[0],))
            s2.note((I.line, I.fn, "%s() fails" % A.name))
            self.ck.after(self, s2, I, A.name, args, s2.env[I.id], False)
            effects(st, True)
            st.env[I.id] = self.sym(st, n, w, (fr[1],))
            self.ck.after(self, st, I, A.name, args, st.env[I.id], True)
            return [s2, st]
        effects(st, None)
        st.env[I.id] = self.sym(st, n, w, (( fr[0][0], fr[1][1]),))
        self.ck.after(self, st, I, A.name, args, st.env[I.id], None)
        return [st]

    def out_write(self, st, I, bo, i):
        base, off = bo
        sz = self.cell_size(base)
        n = ('out', I.id, i)
        if base[0] == 'a' and sz is not None and sz <= 8 and off == 0:
            self.sym(st, n, sz * 8)
            t = self.F.ins[base[1]].j.get("at_") if base[1] in self.F.ins else None
            self.write(st, base, 0, sz, ('p', ('d', n), 0) if t == 'ptr' else ('s', n))
        else:
            self.havoc(st, base, n)

    def cell_size(self, base):
        if base[0] == 'a':
            J = self.F.ins.get(base[1])
            if J is not None and J.j.get("n", {}).get("v") == 1:
                return J.j.get("sz")
            if J is not None:
                return J.j.get("sz")
        return None

    def span(self, st, off, n):
        """the bytes an access of n bytes at off can touch, when both are bounded"""
        lo, hi = iv_hull(self.rng(st, ('i', off) if isinstance(off, int) else off) or ((0, INF),))
        l, h = iv_hull(self.rng(st, n) or ((0, INF),))
        return (lo, hi + h) if -(1 << 31) < lo and hi + h < 1 << 31 else ()

    def intrinsic(self, st, I, callee, args):
        if callee.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            dst, src, n = args[0], args[1], args[2]
            self.ck.access(self, st, I, dst, n, "w", callee)
            if not callee.startswith("llvm.memset"):
                self.ck.access(self, st, I, src, n, "r", callee)
            bo = self.base_of(dst)
            if bo is not None:
                base, off = bo
                if n == ('i', 0):
                    pass
                elif callee.startswith("llvm.memset"):
                    full = n[0] == 'i' and isinstance(off, int)
                    if full:
                        lo, hi = off, off + n[1]
                        sz = self.cell_size(base)
                        covers = lo == 0 and ((sz is not None and hi >= sz) or base[0] in 'hd')
                        for k in [k for k in st.mem if k[0] == base and isinstance(k[1], int)
                                  and k[1] < hi and lo < k[1] + st.mem[k][0]]:
                            del st.mem[k]
                        if covers and src == ('i', 0) and not any(k[0] == base for k in st.mem):
                            st.objs[base] = 'zero'
                        elif src == ('i', 0) and hi - lo <= 64:
                            self.havoc(st, base, ('c', I.id), lo, hi) if st.objs.get(base) != 'zero' else None
                            o = lo
                            while o < hi:
                                s = 8 if o % 8 == 0 and hi - o >= 8 else 4 if o % 4 == 0 and hi - o >= 4 else 1
                                st.mem[(base, o)] = (s, ('i', 0))
                                o += s
                        else:
                            self.havoc(st, base, ('c', I.id), lo, hi)
                    else:
                        self.havoc(st, base, ('c', I.id), *self.span(st, off, n))
                else:
                    if n[0] == 'i' and isinstance(off, int):
                        sb = self.base_of(src)
                        cells = {}
                        if sb and isinstance(sb[1], int):
                            for (b2, o2), c in st.mem.items():
                                if b2 == sb[0] and isinstance(o2, int) and sb[1] <= o2 and o2 + c[0] <= sb[1] + n[1]:
                                    cells[off + o2 - sb[1]] = c
                            whole = st.objs.get(sb[0])
                        self.havoc(st, base, ('c', I.id), off, off + n[1])
                        for o, c in cells.items():
                            st.mem[(base, o)] = c
                    else:
                        self.havoc(st, base, ('c', I.id), *self.span(st, off, n))
            if I.t:
                st.env[I.id] = dst
            self.ck.after(self, st, I, callee, args, None, None)
            return [st]
        if I.t:
            st.env[I.id] = self.sym(st, ('r', I.id), WIDTH.get(I.t, 64))
        return [st]

def adepth(x):
    """nesting of arithmetic in a name"""
    if x[0] in ('s', '+') and isinstance(x[1], tuple):
        return adepth(x[1])
    if x[0] == 'op':
        return 1 + max(adepth(x[2]), adepth(x[3]))
    if x[0] in ('z', 't'):
        return 1 + adepth(x[-1])
    return 0

_dcache = {}
def depth(x):
    if not isinstance(x, tuple):
        return 0
    d = _dcache.get(x)
    if d is None:
        d = 1 + max((depth(y) for y in x if isinstance(y, tuple)), default=0)
        if len(_dcache) > 2000000:
            _dcache.clear()
        _dcache[x] = d
    return d

def const_at(init, off, size):
    k = init["k"]
    if k == "zero":
        return ('i', 0)
    if k == "bytes":
        b = bytes.fromhex(init["h"])
        if 0 <= off and off + size <= len(b):
            return ('i', int.from_bytes(b[off:off + size], "little", signed=True))
        return None
    if k == "arr":
        es = init["es"]
        i = off // es
        if not 0 <= i < len(init["e"]):
            return None
        e = init["e"][i]
        if isinstance(e, dict):
            return const_at(e, off - i * es, size)
        if off % es == 0 and size == es:
            return ('i', e)
        return None
    if k == "struct":
        best = None
        for o, e in zip(init["off"], init["e"]):
            if o <= off:
                best = (o, e)
        return const_at(best[1], off - best[0], size) if best else None
    if k == "c" and off == 0:
        return ('i', init.get("v", 0))
    if k == "null":
        return ('i', 0)
    if k == "g":
        return ('p', ('g', init["n"]), init["o"])
    if k == "f":
        return ('f', init["n"])
    return None
