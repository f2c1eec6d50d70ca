"""Points and keys from outside are validated and belong to the parameter set in use (C26)."""
from engine import NULL
from front import AnalysisError
from common import Report, fmt_path, run_all
from check import Result
from auth import MacTrack, strip
import roles, tables
from flow import attempt, SHARED

# the result lies on the curve of the group: computed on it, or checked
CHECKED = {"EC_POINT_set_affine_coordinates": 1, "EC_POINT_set_affine_coordinates_GFp": 1, "EC_POINT_oct2point": 1,
           "EC_POINT_set_compressed_coordinates": 1, "EC_POINT_set_compressed_coordinates_GFp": 1,
           "EC_POINT_mul": 1, "gost_ec_point_mul": 1, "EC_POINT_add": 1, "EC_POINT_dbl": 1}
# written without a check
RAW = {"EC_POINT_set_Jprojective_coordinates_GFp": 1}
COPIES = {"EC_POINT_copy": (0, 1)}
MUL = {"EC_POINT_mul": 3, "gost_ec_point_mul": 3}
SETKEY = {"EC_KEY_set_public_key": 1}

def gets(b, *names):
    """getter term of an object"""
    return b is not None and b[0] == 'd' and b[1][0] == 'get' and b[1][1] in names

class Foreign(MacTrack):
    SINK = {}                  # function -> arguments that are multiplied by a secret
    STORE = {}                 # function -> arguments that become the point of a key
    def __init__(self, prog, F):
        super().__init__(prog, F)
        self.sink, self.put = set(), set()
        self.stats = {"keys set": set(), "multiplications": set()}
    def rep(self, eng, st, I, kind, key, text):
        key = "%s/%s" % (self.F.name, key)
        if key not in self.reports:
            self.reports[key] = Report(kind, key, I.where(), text, fmt_path(st.path(14)))
    def obj(self, eng, v):
        b = eng.base_of(v)
        return b[0] if b is not None else None
    def point(self, eng, st, I, v, what, args):
        """the point comes from a checked source; arguments are left to the callers"""
        o = self.obj(eng, v)
        if o is None or v == NULL:
            return
        if o[0] == 'd' and o[1][0] == 'arg' and len(o[1]) == 2:
            if ('raw', o) not in st.ps:
                args.add(o[1][1])
                return
        elif gets(o, "EC_KEY_get0_public_key"):
            self.owner(eng, st, I, o[1], what)
            return
        elif gets(o, "EC_GROUP_get0_generator"):
            return
        if ('on', o) not in st.ps and (o[0] in 'ah' or ('raw', o) in st.ps):
            self.rep(eng, st, I, "unchecked point", what, "%s is given a point whose coordinates were not checked to lie on the curve" % what)
    def owner(self, eng, st, I, get, what):
        """the key whose public point is used"""
        if what in SETKEY:
            return
        k = get[2]
        o = k if k[0] != 'p' else self.obj(eng, k)
        while gets(o, "EVP_PKEY_get0", "EVP_PKEY_get0_EC_KEY"):
            k = o[1][2]
            o = k if k[0] != 'p' else self.obj(eng, k)
            if o is None or gets(o, "EVP_PKEY_CTX_get0_pkey", "EVP_PKEY_CTX_get0_peerkey") or o[0] == 'd' and o[1][0] == 'arg':
                return
            if ('same', o) not in st.ps:
                self.rep(eng, st, I, "foreign key", what, "%s uses the public point of a key that was not compared with the parameters of the private key" % what)
            return
    def after(self, eng, st, I, callee, args, val, ok):
        super().after(eng, st, I, callee, args, val, ok)
        if callee is None:
            return
        for tab, word in ((CHECKED, 'on'), (RAW, 'raw')):
            i = tab.get(callee)
            if i is not None and i < len(args):
                o = self.obj(eng, args[i])
                if o is not None:
                    st.ps.pop(('on', o), None)
                    st.ps.pop(('raw', o), None)
                    if word == 'raw' or ok is not False:
                        st.ps[(word, o)] = (word,)
        if callee in COPIES:
            d, s = (self.obj(eng, args[i]) for i in COPIES[callee])
            if d is not None:
                st.ps.pop(('on', d), None)
                if ('on', s) in st.ps or gets(s, "EC_KEY_get0_public_key", "EC_GROUP_get0_generator"):
                    st.ps[('on', d)] = ('on',)
        if callee == "EVP_PKEY_derive_set_peer" and ok is not False:
            self.same(eng, st, args[1])
        if callee in ("EVP_PKEY_parameters_eq", "EVP_PKEY_cmp_parameters", "EVP_PKEY_eq", "EVP_PKEY_cmp", "EVP_PKEY_copy_parameters"):
            st.ps[('eqv', I.id)] = ('eqv', val, tuple(args[:2]))
    def call(self, eng, st, I, callee, args):
        for k, v in list(st.ps.items()):
            if k[0] == 'eqv' and eng.rng(st, v[1]) == ((1, 1),):
                for a in v[2]:
                    self.same(eng, st, a)
        if callee in SETKEY:
            self.stats["keys set"].add((self.F.name, I.id))
            self.point(eng, st, I, args[1], callee, self.put)
        if callee in MUL and len(args) > 4 and args[MUL[callee]] != NULL and self.secret(eng, st, args[4]):
            self.stats["multiplications"].add((self.F.name, I.id))
            self.point(eng, st, I, args[MUL[callee]], callee, self.sink)
        for i in sorted(self.SINK.get(callee, ())):
            self.stats["multiplications"].add((self.F.name, I.id))
            self.point(eng, st, I, args[i], callee, self.sink)
        for i in sorted(self.STORE.get(callee, ())):
            self.point(eng, st, I, args[i], "EC_KEY_set_public_key", self.put)
        return None
    def secret(self, eng, st, v):
        """not the public number of a signature"""
        return True
    def same(self, eng, st, v):
        o = self.obj(eng, v)
        if o is not None:
            st.ps[('same', o)] = ('same',)

class ParamCmp(MacTrack):
    """a positive answer implies that both keys' groups were compared"""
    def ret(self, eng, st, I, val):
        if val is None:
            return
        for s in eng.cmp(st.clone(), 'ne', val, NULL):
            for t in eng.cmp(s, 'eq', val, ('i', 1)):
                if not self.compared(eng, t):
                    key = "%s/equal" % self.F.name
                    self.reports.setdefault(key, Report("parameters not compared", key, I.where(),
                        "%s answers that the parameters are equal without having found the groups of both keys equal" % self.F.name, fmt_path(t.path(14))))
                else:
                    self.stats.setdefault("comparisons", set()).add(self.F.name)
    def branch(self, eng, st, I, v, taken):
        self.known(eng, st)
        return True
    def known(self, eng, st):
        def side(v):
            v = strip(v)
            if ('cn', v) in st.ps:
                return st.ps[('cn', v)][1]
            if v[0] == 's' and v[1][0] == 'get' and v[1][1] == "EC_GROUP_get_curve_name":
                return keyarg(eng, v[1][2])
            return None
        for k, v in st.con.items():
            if k[0] == 'rel' and v == frozenset('=') and k[3] == 0 and {side(k[1]), side(k[2])} == {0, 1}:
                st.ps['equal'] = ('equal',)
    def compared(self, eng, st):
        self.known(eng, st)
        if 'equal' in st.ps:
            return True
        for k, v in st.ps.items():
            if k[0] == 'gcmp' and eng.rng(st, v[1]) == ((0, 0),) and {keyarg(eng, v[2]), keyarg(eng, v[3])} == {0, 1}:
                return True
        return False
    def after(self, eng, st, I, callee, args, val, ok):
        if callee == "EC_GROUP_cmp":
            st.ps[('gcmp', I.id)] = ('gcmp', val, args[0], args[1])
        if callee == "EC_GROUP_get_curve_name" and val is not None:
            st.ps[('cn', strip(val))] = ('cn', keyarg(eng, args[0]))

def keyarg(eng, v):
    """which argument a value was got from"""
    while True:
        if v[0] == 'p':
            b = eng.base_of(v)
            if b is None:
                return None
            v = b[0]
        if v[0] == 'd':
            v = v[1]
        if v[0] == 'get':
            v = v[2]
        elif v[0] == 'arg' and len(v) == 2:
            return v[1]
        elif v[0] not in 'pd':
            return None

def c26(tier="quick"):
    P = tables.program()
    RO = roles.roles(P)
    R = Result()
    use = set(MUL) | set(SETKEY) | set(RAW)
    Foreign.SINK, Foreign.STORE = {}, {}
    for rnd in range(4):
        names = sorted(F.name for F in P.roots() if any(I.op == "call" and I.callee in use for b in F.order for I in F.blocks[b]))
        def each(P, F):
            ck, e = attempt(P, F, Foreign)
            ck.stats["sink"] = {(F.name, i) for i in ck.sink}
            ck.stats["put"] = {(F.name, i) for i in ck.put}
            return ck, e
        reps, st, err, slow = run_all(P, each, [P.fn[n] for n in names])
        new = []
        for w in ("sink", "put"):
            d = {}
            for f, i in st.get(w, ()):
                if f not in MUL:
                    d.setdefault(f, set()).add(i)
            new.append(d)
        if new == [Foreign.SINK, Foreign.STORE]:
            break
        Foreign.SINK, Foreign.STORE = new
        use |= set(new[0]) | set(new[1])
    cmps = [P.fn[f] for f, rs in sorted(RO.items()) if "ameth.param_cmp" in rs and f in P.fn]
    reps2, st2, err2, _ = run_all(P, lambda P, F: attempt(P, F, ParamCmp), cmps)
    R.reports += sorted(list(reps) + list(reps2), key=lambda r: r.key)
    R.undecided += err + err2
    R.coverage["explanation"] = ("Every point that becomes the public point of a key, or is multiplied by a secret, was on the same path computed "
        "on the curve or set by an operation that checks the curve equation; when it is the public point of another key, that key is the "
        "context's own or peer key, or its parameters were compared with the private key's on the same path. The comparison of parameters "
        "answers 'equal' only after comparing the groups of both keys.")
    R.coverage["functions whose argument is multiplied"] = {f: sorted(v) for f, v in sorted(Foreign.SINK.items())}
    R.coverage["functions whose argument becomes a key"] = {f: sorted(v) for f, v in sorted(Foreign.STORE.items())}
    R.assumptions += SHARED + ["EVP_PKEY_derive_set_peer compares the parameters of both keys with the registered comparison (OpenSSL 3.0)."]
    R.floor("points that become public keys", len(st.get("keys set", ())), 2)
    R.floor("multiplications of foreign points", len(st.get("multiplications", ())), 4)
    R.floor("comparisons of parameters", len(st2.get("comparisons", ())), 1)
    return R
