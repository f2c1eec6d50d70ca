"""What operations must not write: inputs handed in for reading (C23), memory shared between contexts (C22)."""
from engine import NULL, iv_hull
from front import AnalysisError, Program
from api import API
from common import Report, fmt_path, run_all
from check import Result
from flow import attempt, SHARED
import ranges, roles, tables
from ranges import RangeCheck, BIG, root

# control functions: (argument with the command, argument with the data, commands whose data is only read)
READ_CMDS = {
    "digest.ctrl": (1, 3, {0x1004}),                      # set key
    "cipher.ctrl": (1, 3, {0x11, 0x28, 0x29}),            # set tag, unprotected attributes, TLSTREE sequence number
    "pmeth.ctrl": (1, 3, {1, 2, 6, 7, 8, 12}),            # digest, peer key, MAC key, digest initialisation, IV, cipher
}
# roles in which keys are used, not made or changed
USING = ("pmeth.sign", "pmeth.verify", "pmeth.encrypt", "pmeth.decrypt", "pmeth.derive", "pmeth.signctx",
         "ameth.pub_encode", "ameth.priv_encode", "ameth.pub_cmp", "ameth.param_cmp", "ameth.pub_print", "ameth.priv_print",
         "ameth.param_print", "ameth.param_encode", "pmeth.check", "pmeth.public_check")
KEYSET = ("EC_KEY_set_", "EVP_PKEY_assign", "EVP_PKEY_set", "EC_KEY_generate", "EC_GROUP_set_", "EVP_PKEY_copy_parameters")
# functions of a number or point library that write to their first argument
DEST = ("BN_", "EC_POINT_", "EC_GROUP_", "EC_KEY_")

def dest(callee):
    """arguments through which a function of OpenSSL changes an object handed in"""
    out = set()
    A = API.get(callee)
    if A is not None:
        out |= set(A.out)
    if callee.startswith(DEST) and "get0" not in callee:
        w = callee.split("_")[1:]
        if callee.startswith("BN_"):
            if not any(x in w for x in ("cmp", "ucmp", "is", "num", "bn2bin", "bn2lebinpad", "bn2binpad", "new", "free", "CTX", "print",
                                        "bn2hex", "bn2dec", "bn2mpi", "bn2nativepad", "get", "dup", "bin2bn", "lebin2bn", "dec2bn", "hex2bn")):
                out.add(0)
        elif w[0] in ("set", "generate") or w[1:2] == ["set"]:
            out.add(0)
        elif callee.startswith("EC_POINT_") and w[1] in ("mul", "add", "dbl", "invert", "copy", "make", "set", "oct2point"):
            out.add(0 if w[1] == "copy" else 1)
        if callee.startswith("EC_POINT_"):
            out = {1 if i == 0 and w[1] != "copy" else i for i in out}
    return out

def key_of(b):
    """is the object (part of) a key obtained from a context or another key?"""
    n = b[1]
    while b[0] == 'd' and n[0] == 'get':
        if n[1].split("_get")[0] in ("EC_KEY", "EC_GROUP", "EVP_PKEY", "EVP_PKEY_CTX") and ("get0" in n[1] or n[1].endswith("peerkey")):
            return n[1]
        return None
    return None

def readonly(t):
    """type of a pointer through which nothing may be written"""
    return t.startswith("const ") and t.count("*") == 1 or t.rstrip().endswith("const *")

class Writes(RangeCheck):
    ROLES = {}
    USE = frozenset()
    def __init__(self, prog, F):
        super().__init__(prog, F)
        self.inputs = {i for i, t in enumerate(F.argt) if readonly(t) and i < len(F.args) and F.args[i][2] == "ptr"}
        self.cmds = [READ_CMDS[r] for r in self.ROLES.get(F.name, ()) if r in READ_CMDS]
        self.stats = {"inputs": {(F.name, i) for i in self.inputs} | {(F.name, c[1], k) for c in self.cmds for k in c[2]},
                      "writes": set(), "keys": set()}
    def argname(self, i):
        return self.F.args[i][1] or "argument %d" % (i + 1)
    def event(self, eng, st, I, ev, what):
        r, lo, hi, kind, exact = ev
        if kind != 'w':
            return
        self.stats["writes"].add((self.F.name, I.id, r))
        if r[0] == 'arg':
            i = r[1]
            if i in self.inputs:
                if what in self.prog.fn and self.blamed(eng, I, what, i):
                    return
                self.rep(I, st, i, "%s: %s writes through %s, which was handed in for reading" % (self.F.name, what, self.argname(i)))
            for t, d, ks in self.cmds:
                if i == d:
                    k = eng.rng(st, ('s', ('arg', t)))
                    if len(k) == 1 and k[0][0] == k[0][1] and k[0][0] in ks:
                        self.rep(I, st, i, "%s: %s changes the data of a control command that only reads it" % (self.F.name, what))
    def blamed(self, eng, I, callee, i):
        return False
    def rep(self, I, st, i, text):
        key = "%s/%s" % (self.F.name, self.argname(i) if isinstance(i, int) else i)
        if key not in self.reports:
            self.reports[key] = Report("input modified", key, I.where(), text, fmt_path(st.path(14)))
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is not None and callee not in self.prog.fn and not callee.startswith("llvm."):
            for i in dest(callee):
                b = eng.base_of(args[i]) if i < len(args) else None
                if b is None:
                    continue
                k = key_of(b[0])
                if k is not None:
                    if callee.startswith(KEYSET) and self.F.name not in self.USE:
                        continue
                    if not callee.startswith(KEYSET) and k.startswith("EVP_PKEY_get") and "get0" in k and self.F.name not in self.USE:
                        continue
                    self.rep(I, st, k, "%s: %s changes an object obtained with %s" % (self.F.name, callee, k))
            for i, a in enumerate(args):
                b = eng.base_of(a)
                if b is not None and key_of(b[0]):
                    self.stats["keys"].add((self.F.name, I.id, i))
        super().after(eng, st, I, callee, args, val, ok)

def reach(P, starts, stop=()):
    todo, seen = list(starts), {}
    for f in todo:
        seen[f] = None
    while todo:
        f = todo.pop()
        F = P.fn.get(f)
        if F is None:
            continue
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "call" and I.callee in P.fn and I.callee not in seen and I.callee not in stop:
                    seen[I.callee] = f
                    todo.append(I.callee)
    return seen

def prepare(P, R):
    names = {f for f in P.fn if len(P.fn[f].ins) < 6000}
    err, coarse = ranges.summaries(P, names)
    R.undecided += err
    return names, set(coarse), sorted(set(P.fn) - names)

def c23(tier="quick"):
    P = tables.program()
    R = Result()
    names, coarse, big = prepare(P, R)
    Writes.ROLES = roles.roles(P)
    Writes.USE = frozenset(reach(P, [f for f, rs in Writes.ROLES.items() if any(r in USING for r in rs)]))
    reps, st, err, slow = run_all(P, lambda P, F: attempt(P, F, Writes), [P.fn[f] for f in sorted(names - coarse)])
    R.reports += sorted(reps, key=lambda r: r.key)
    R.undecided += err
    R.coverage["not followed"] = sorted(coarse) + big
    R.coverage["explanation"] = ("Every function is interpreted path by path.  No store, copy, library call or called function "
        "(through a summary of the bytes it writes through each argument) may write through a pointer to constant data that the "
        "function was given, nor to the data of a control command that only reads it; functions that use keys (everything "
        "reachable from signing, verifying, deriving, encrypting, decrypting, encoding and comparing) change no object obtained "
        "from a key, and no function changes the key an EVP_PKEY getter returned unless it makes keys.")
    R.assumptions += SHARED + ["Functions of other libraries write only through the arguments they are documented to write.",
                               "A pointer kept in a context and used by a later call is not followed back to the input it came from."]
    R.floor("inputs", len(st.get("inputs", ())), 150)
    R.floor("writes", len(st.get("writes", ())), 300)
    R.floor("uses of keys", len(st.get("keys", ())), 10)
    return R

# ---------------------------------------------------------------------------------------------------- C22
# process-wide state of the C library and of OpenSSL
PROCESS = {"setlocale", "strtok", "rand", "srand", "random", "srandom", "putenv", "setenv", "unsetenv", "gmtime", "localtime", "asctime", "ctime",
           "OBJ_create", "OBJ_add_object", "OBJ_add_sigid", "OBJ_cleanup", "ENGINE_add", "ENGINE_remove", "ENGINE_set_default", "ENGINE_set_default_string",
           "ENGINE_register_all_complete", "ENGINE_register_complete", "EVP_PKEY_meth_add0", "EVP_PKEY_asn1_add0", "EVP_add_cipher", "EVP_add_digest",
           "EVP_set_default_properties", "CRYPTO_set_mem_functions", "RAND_set_rand_method", "signal", "umask", "chdir"}
# hand the error to the thread's own queue; they only look at the handle
CORE = {"proverr_new_error", "proverr_set_error_debug", "proverr_set_error"}
SELECT = {"engine.ciphers": 1, "engine.digests": 1, "engine.pkey_meths": 1, "engine.pkey_asn1_meths": 1}

def mutable_global(P, F, name):
    g = F.mod.globals.get(name)
    if g is None:
        for m in P.mods:
            if name in m.globals:
                g = m.globals[name]
                break
    return g is None or not g.get("const")

class Shared(RangeCheck):
    """writes to memory that belongs to no context"""
    RETG = {}
    SEL = {}
    def __init__(self, prog, F):
        super().__init__(prog, F)
        self.returned = set()
        self.stats = {"writes": set()}
    def start(self, eng, st):
        i = self.SEL.get(self.F.name)
        if i is not None:                   # a request for one method, not for the list of them
            eng.symw[('arg', i)] = 64
            st.con[('arg', i)] = ((1, (1 << 64) - 1),)
    def region(self, base):
        if base[0] == 'd':
            n = base[1]
            c = n[1] if n[0] == 'get' else None
            if n[0] == 'ret' and n[1] in self.F.ins:
                c = self.F.ins[n[1]].callee
            if c in self.RETG:
                return ('g', sorted(self.RETG[c])[0])
            if n[0] == 'm' and isinstance(n[2], int):
                r = self.region(n[1])
                return None if r is None else ('*', r, n[2])
        return ranges.region_of(base)
    def ret(self, eng, st, I, val):
        b = eng.base_of(val) if val is not None and val[0] == 'p' else None
        if b is not None:
            r = self.region(b[0])
            if r is not None and r[0] == 'g' and mutable_global(self.prog, self.F, r[1]):
                self.returned.add(r[1])
    def event(self, eng, st, I, ev, what):
        r, lo, hi, kind, exact = ev
        if kind != 'w':
            return
        self.stats["writes"].add((self.F.name, I.id))
        g = root(r)
        if g[0] == 'g' and (r[0] == '*' or mutable_global(self.prog, self.F, g[1])):
            self.rep(I, st, g[1], what)
    def rep(self, I, st, g, what):
        key = "%s/%s" % (self.F.name, g)
        if what in self.prog.fn:
            key = "%s/its-argument" % what          # one defect, however many callers
        if key not in self.reports:
            self.reports[key] = Report("shared memory written", key, I.where(), "%s: %s writes to %s, which all contexts share" %
                                       (I.fn, what, g), fmt_path(st.path(14)))
    def after(self, eng, st, I, callee, args, val, ok):
        if callee is not None and callee not in self.prog.fn and not callee.startswith("llvm."):
            if callee in PROCESS:
                self.rep(I, st, "the state of the process", callee)
            for i in dest(callee):
                b = eng.base_of(args[i]) if i < len(args) and args[i][0] == 'p' else None
                r = self.region(b[0]) if b is not None else None
                if r is not None and r[0] == '*' and root(r)[0] == 'g' and not callee.endswith("_free"):
                    self.rep(I, st, root(r)[1], callee)
            if callee in CORE:
                return
        super().after(eng, st, I, callee, args, val, ok)

def scan(P, F, Report):
    """a function too large to follow: stores through pointers computed from a global"""
    out = []
    def src(o, seen=()):
        if o[0] == 'p' and o[1][0] == 'g':
            return o[1][1]
        if o[0] != 'v' or o[1] in seen or o[1] not in F.ins:
            return None
        I = F.ins[o[1]]
        if I.op == "getelementptr":
            return src(I.j["b"], seen + (o[1],))
        if I.op == "phi":
            return next((g for g in (src(x, seen + (o[1],)) for x in I.j["in"].values()) if g), None)
        if I.op == "select":
            return src(I.args[1], seen + (o[1],)) or src(I.args[2], seen + (o[1],))
        return None
    for b in F.order:
        for I in F.blocks[b]:
            if I.op == "store":
                g = src(I.args[1])
                if g and mutable_global(P, F, g):
                    out.append(Report("shared memory written", "%s/%s" % (I.fn, g), I.where(), "%s: a store writes to %s, which all contexts share" % (I.fn, g), []))
            elif I.op == "call" and I.callee in PROCESS:
                out.append(Report("shared memory written", "%s/process" % I.fn, I.where(), "%s: %s changes the state of the process" % (I.fn, I.callee), []))
    return out

def c22(tier="quick"):
    P = tables.program()
    R = Result()
    names, coarse, big = prepare(P, R)
    RO = roles.roles(P)
    ops = {f for f, rs in RO.items() if any(not r.startswith(("engine.", "prov.base")) for r in rs)}
    sel = {f: SELECT[r] for f, rs in RO.items() for r in rs if r in SELECT}
    Shared.SEL, Shared.RETG = sel, {}
    R.floor("operations", len(ops), 200)
    seen = reach(P, ops | set(sel))
    follow = sorted(f for f in seen if f in names and f not in coarse)
    for rnd in range(3):
        def each(P, F):
            ck, e = attempt(P, F, Shared)
            ck.stats["returned"] = {(F.name, g) for g in ck.returned}
            return ck, e
        reps, st, err, slow = run_all(P, each, [P.fn[f] for f in follow])
        new = {}
        for f, g in st.get("returned", ()):
            new.setdefault(f, set()).add(g)
        if new == Shared.RETG:
            break
        Shared.RETG = new
    rest = [f for f in seen if f in P.fn and f not in follow]
    for f in sorted(rest):
        reps = list(reps) + scan(P, P.fn[f], Report)
    by = {}
    for r in reps:
        by.setdefault(r.key, r)
    R.reports += [by[k] for k in sorted(by)]
    R.undecided += err
    R.coverage["explanation"] = ("Every function reachable from a callback of a cipher, digest, key method, provider dispatch table "
        "or method selector (asked for one method) is interpreted path by path; a store, a copy, a called function (summary of the "
        "bytes it writes through its arguments) or a library call must not write to a global or static variable, to memory reached "
        "from one or returned by a function that returns a pointer into one, nor change the state of the process.")
    R.assumptions += SHARED + ["Loading and unloading (bind, engine control commands, provider initialisation and teardown, the listing of all "
        "methods) does not run at the same time as operations."]
    R.coverage["functions reached"] = len(seen)
    R.coverage["only scanned for stores to globals"] = sorted(rest)
    R.coverage["functions that return shared memory"] = {f: sorted(g) for f, g in sorted(Shared.RETG.items())}
    R.floor("functions followed", len(follow), 250)
    R.floor("writes", len(st.get("writes", ())), 300)
    return R
