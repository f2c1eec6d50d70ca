"""Front end: /repo's current sources -> LLVM IR -> JSON -> Python objects.

Every run compiles the working tree (clang -O0, locals promoted to SSA, static
helpers inlined into their callers so that extracting or merging a helper does
not change what is analysed).  Results are cached by the hash of the sources."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRDUMP = os.path.join(VERIF, "build", "irdump")
STUB = os.path.join(VERIF, "tool", "stub")

class AnalysisError(Exception):
    pass

BASE = ["-std=gnu90", "-DNDEBUG", "-DL_ENDIAN", "-DHAVE_ADDCARRY_U64", "-O0", "-Xclang", "-disable-O0-optnone",
        "-g", "-fno-discard-value-names", "-fno-math-errno", "-emit-llvm", "-c", "-w"]

def sources():
    return sorted(f for f in os.listdir(REPO)
                  if f.endswith(".c") and not f.startswith("test_"))

def tree_hash(extra=""):
    h = hashlib.sha256()
    for f in sorted(os.listdir(REPO)):
        if f.endswith((".c", ".h")):
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fp:
                h.update(fp.read())
            h.update(b"\0")
    for p in (IRDUMP,):
        with open(p, "rb") as fp:
            h.update(fp.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]

def cache_dir():
    d = os.path.join(tempfile.gettempdir(), "gost-sa-%d" % os.getuid(), tree_hash(" ".join(BASE)))
    os.makedirs(d, exist_ok=True)
    return d

def ensure_tool():
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build irdump:\n" + r.stdout + r.stderr)

def dump(tu, mode="inline", defs=(), maxi=2500, tag=""):
    """JSON of one translation unit"""
    d = cache_dir()
    out = os.path.join(d, "%s.%s%s.json" % (tu[:-2], mode, tag))
    if not os.path.exists(out):
        fd, bc = tempfile.mkstemp(suffix=".bc", dir=d)
        os.close(fd)
        tmp = bc[:-3] + ".json"
        r = subprocess.run(["clang-18"] + BASE + list(defs) + ["-I" + REPO, "-I" + STUB,
                            os.path.join(REPO, tu), "-o", bc], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot compile %s:\n%s" % (tu, r.stderr[-3000:]))
        with open(tmp, "wb") as fp:
            r = subprocess.run([IRDUMP, bc, mode, str(maxi)], stdout=fp, stderr=subprocess.PIPE)
        os.unlink(bc)
        if r.returncode:
            raise AnalysisError("irdump failed on %s: %s" % (tu, r.stderr.decode()[-2000:]))
        os.rename(tmp, out)
    return out

class Ins:
    __slots__ = ("id", "op", "t", "name", "line", "fn", "file", "at", "j", "args", "callee", "root")
    def __repr__(self):
        return "<%s %s l%s>" % (self.op, self.callee or "", self.line)
    def where(self):
        s = "%s:%s in %s" % (os.path.basename(self.file or "?"), self.line, self.fn)
        if self.at:
            s += " (inlined into %s:%s)" % (self.at[-1]["fn"], self.at[-1]["l"])
        return s

def _op(o):
    k = o["k"]
    if k == "v":
        return ("v", o["i"])
    if k == "c":
        return ("i", o["v"] if "v" in o else int(o["big"]))
    if k == "null":
        return ("i", 0)
    if k == "g":
        return ("p", ("g", o["n"]), o["o"])
    if k == "f":
        return ("f", o["n"])
    if k == "undef":
        return ("u",)
    return ("x",)

WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "ptr": 64}

class Fn:
    pass

class Module:
    def __init__(self, path, tu, rename=()):
        with open(path) as fp:
            t = fp.read()
        for n in rename:
            t = t.replace('"%s"' % n, '"%s@%s"' % (n, tu[:-2]))
        d = json.loads(t)
        self.tu = tu
        self.structs = d["structs"]
        self.typedefs = d.get("typedefs", {})
        self.calls = {k: set(v) for k, v in d["calls"].items()}
        self.globals = d["globals"]
        self.decls = {}
        self.fns = {}
        for n, f in d["functions"].items():
            if f["decl"]:
                self.decls[n] = f
                continue
            self.fns[n] = self._fn(n, f)

    def _fn(self, name, f):
        F = Fn()
        F.name, F.mod, F.local, F.addr = name, self, f["local"], f["addr"]
        F.ret, F.rett = f["ret"], f.get("rett", "")
        F.argt = f.get("argt", [])
        F.line, F.file = f.get("l"), f.get("file")
        F.args = [(a["i"], a["nm"], a["t"]) for a in f["args"]]
        F.blocks, F.order = {}, []
        F.types = {a["i"]: a["t"] for a in f["args"]}
        F.ins = {}
        for b in f["blocks"]:
            L = []
            for j in b["ins"]:
                I = Ins()
                I.id, I.op, I.t, I.name = j.get("i"), j["op"], j.get("t"), j.get("nm")
                I.line, I.fn, I.file, I.at = j.get("l"), j.get("fn"), j.get("file"), j.get("at") or []
                I.callee = j.get("callee")
                I.root = name
                I.j = j
                I.args = tuple(_op(x) for x in j.get("a", ()))
                if I.op == "phi":
                    j["in"] = {p: _op(v) for v, p in j["in"]}
                elif I.op == "getelementptr":
                    j["b"] = _op(j["b"])
                    j["vo"] = [(_op(v), s) for v, s in j["vo"]]
                elif I.op == "br" and "c" in j:
                    j["c"] = _op(j["c"])
                elif I.op == "switch":
                    j["c"] = _op(j["c"])
                elif I.op == "call" and "cv" in j:
                    j["cv"] = _op(j["cv"])
                if I.op == "call" and I.id is None:
                    pass
                if I.id is not None:
                    F.types[I.id] = I.t
                    F.ins[I.id] = I
                L.append(I)
            F.blocks[b["i"]] = L
            F.order.append(b["i"])
        # unique ids for instructions without a result
        n = 1000000
        for b in F.order:
            for I in F.blocks[b]:
                if I.id is None:
                    n += 1
                    I.id = n
        F.entry = F.order[0]
        cfg(F)
        return F

def succs(I):
    if I.op == "br":
        return list(I.j["s"])
    if I.op == "switch":
        return [I.j["d"]] + [s for _, s in I.j["cs"]]
    return []

def uses(I):
    o = list(I.args)
    j = I.j
    if I.op == "getelementptr":
        o.append(j["b"])
        o += [v for v, _ in j["vo"]]
    elif I.op in ("br", "switch") and "c" in j:
        o.append(j["c"])
    elif I.op == "call" and "cv" in j:
        o.append(j["cv"])
    return [x[1] for x in o if x[0] == "v"]

def cfg(F):
    F.succ = {b: list(dict.fromkeys(succs(F.blocks[b][-1]))) for b in F.order}
    F.pred = {b: [] for b in F.order}
    for b, ss in F.succ.items():
        for s in ss:
            F.pred[s].append(b)
    # rpo + back edges
    seen, post, onst, back = set(), [], set(), set()
    stack = [(F.entry, iter(F.succ[F.entry]))]
    seen.add(F.entry); onst.add(F.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s in onst:
                back.add((b, s))
            elif s not in seen:
                seen.add(s); onst.add(s)
                stack.append((s, iter(F.succ[s])))
                break
        else:
            stack.pop(); onst.discard(b); post.append(b)
    F.rpo = {b: i for i, b in enumerate(reversed(post))}
    F.back = back
    F.headers = {h for _, h in back}
    # natural loops: header -> set of blocks
    F.loops = {}
    for (t, h) in back:
        L = F.loops.setdefault(h, {h})
        w = [t]
        while w:
            x = w.pop()
            if x in L or x not in F.rpo:
                continue
            L.add(x)
            w += F.pred[x]
    # blocks from which the function can return
    rr, w = set(), [b for b in F.order if F.blocks[b][-1].op == "ret"]
    while w:
        x = w.pop()
        if x not in rr:
            rr.add(x)
            w += F.pred[x]
    F.reaches_ret = rr
    # liveness of SSA values
    use, deff, phiuse = {}, {}, {}
    for b in F.order:
        u, d = set(), set()
        for I in F.blocks[b]:
            if I.op == "phi":
                d.add(I.id)
                for p, v in I.j["in"].items():
                    if v[0] == "v":
                        phiuse.setdefault(p, set()).add(v[1])
                continue
            for x in uses(I):
                if x not in d:
                    u.add(x)
            if I.t:
                d.add(I.id)
        use[b], deff[b] = u, d
    live = {b: set() for b in F.order}
    ch = True
    order = sorted(F.rpo, key=lambda b: -F.rpo[b])
    while ch:
        ch = False
        for b in order:
            o = set(phiuse.get(b, ()))
            for s in F.succ[b]:
                o |= live[s]
            n = use[b] | (o - deff[b])
            if n != live[b]:
                live[b] = n
                ch = True
    F.livein = live
    F.livephi = {b: live[b] | {I.id for I in F.blocks[b] if I.op == 'phi'} for b in F.order}
    # thresholds for widening
    F.consts = sorted({k for b in F.order for I in F.blocks[b] if I.op == "icmp"
                       for a in I.args if a[0] == "i" for k in (a[1] - 1, a[1], a[1] + 1)}
                      | {-1, 0, 1})

_modcache = {}
def module(tu, mode="inline", defs=(), maxi=2500, tag=""):
    k = (tu, mode, tag)
    if k not in _modcache:
        _modcache[k] = Module(dump(tu, mode, defs, maxi, tag), tu)
    return _modcache[k]

def predump(tus, mode="inline", maxi=2500, defs=(), tag=""):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda t: dump(t, mode, defs, maxi, tag), tus))

CORE = None
def core_tus():
    """every library source except the generated field-arithmetic files and the stand-alone tools"""
    return [s for s in sources() if not s.startswith("ecp_") and s not in ("gostsum.c", "gost12sum.c", "benchmark.c")]

def ecp_tus():
    return [s for s in sources() if s.startswith("ecp_")]

TOOLS = ["gostsum.c", "gost12sum.c"]

class Program:
    """all core modules with a merged function index"""
    def __init__(self, tus=None, mode="inline", defs=(), tag=""):
        ensure_tool()
        self.tus = tus or core_tus()
        predump(self.tus, mode, defs=defs, tag=tag)
        self.mods = [module(t, mode, defs, tag=tag) for t in self.tus]
        self.separate(mode, defs, tag)
        self.fn = {}
        self.structs, self.typedefs = {}, {}
        for m in self.mods:
            for n, f in m.fns.items():
                if n not in self.fn or not f.local:
                    self.fn[n] = f
            for k, v in m.typedefs.items():
                self.typedefs.setdefault(k, v)
            for k, v in m.structs.items():
                self.structs.setdefault(k, v)
        import api
        api.extend({I.callee for m in self.mods for f in m.fns.values() for b in f.order for I in f.blocks[b]
                    if I.op == "call" and I.callee and I.callee not in self.fn})
        self.exported = {n for m in self.mods for n, f in m.fns.items() if not f.local}
    def separate(self, mode, defs, tag):
        """static functions of different files that share a name get names of their own: name@file"""
        seen = {}
        for i, m in enumerate(self.mods):
            if m.tu.startswith("ecp_"):
                continue
            again = [n for n, f in m.fns.items() if f.local and n in seen]
            for n in m.fns:
                seen.setdefault(n, m)
            if again:
                k = (m.tu, mode, tag, "separate")
                if k not in _modcache:
                    _modcache[k] = Module(dump(m.tu, mode, defs, 2500, tag), m.tu, again)
                self.mods[i] = _modcache[k]
    def roots(self):
        for m in self.mods:
            for n, f in m.fns.items():
                yield f
