"""Sets of values a structure member can hold: the least solution, over all stores to it in the program, of the
equations the stored expressions give (contexts start zeroed)."""
from collections import deque
from front import WIDTH

def field_of(F, o):
    """(structure, offset) a pointer operand addresses, from the access path of the instruction"""
    if o[0] != 'v':
        return None
    g = F.ins.get(o[1])
    if g is None or g.op != "getelementptr" or g.j["vo"]:
        return None
    s = g.j.get("st", "").lstrip("%")
    if not s.startswith("struct."):
        return None
    s = s[7:].split(".")[0]
    off = g.j["o"]
    b = g.j["b"]
    # nested: a member of a member
    if b[0] == 'v':
        h = F.ins.get(b[1])
        if h is not None and h.op == "getelementptr" and not h.j["vo"] and h.j.get("st", "").find("struct.") >= 0 and h.j["o"]:
            return (h.j["st"].lstrip("%")[7:].split(".")[0], h.j["o"] + off)
    return (s, off)

LIMIT = 3000

class Flow:
    """predecessors, conditions that guard a block, and the versions of a member at each point of a function"""
    def __init__(self, F):
        self.F = F
        self.pre = {b: [] for b in F.order}
        for b in F.order:
            for n in dict.fromkeys(succ(F.blocks[b][-1])):
                self.pre[n].append(b)
        self.at = {I.id: (b, i) for b in F.order for i, I in enumerate(F.blocks[b])}
        self.g = {}
    def edge(self, p, b):
        """conditions that hold when control goes from p to b: (operand, test)"""
        T = self.F.blocks[p][-1]
        if T.op == "br" and "c" in T.j and T.j["s"][0] != T.j["s"][1]:
            want = int(T.j["s"][0] == b)
            return [(T.j["c"], lambda x: x == want)]
        if T.op == "switch":
            cs = [n for n, d in T.j["cs"] if d == b]
            ns = [n for n, d in T.j["cs"] if d != b]
            if T.j["d"] == b:
                return [(T.j["c"], lambda x: x not in ns)]
            return [(T.j["c"], lambda x: x in cs)]
        return []
    def guards(self, b):
        """conditions known in block b, along its chain of single predecessors and dominators"""
        if b not in self.g:
            out, c, seen = [], b, set()
            while c is not None and c not in seen:
                seen.add(c)
                if len(self.pre[c]) == 1:
                    out += self.edge(self.pre[c][0], c)
                    c = self.pre[c][0]
                else:
                    c = self.idom(c)
            self.g[b] = out
        return self.g[b]
    def idom(self, b):
        if not hasattr(self, "dom"):
            rpo, seen = [], set()
            def walk(x):
                stack = [(x, iter(succ(self.F.blocks[x][-1])))]
                seen.add(x)
                while stack:
                    y, it = stack[-1]
                    for n in it:
                        if n not in seen:
                            seen.add(n)
                            stack.append((n, iter(succ(self.F.blocks[n][-1]))))
                            break
                    else:
                        rpo.append(y)
                        stack.pop()
            walk(self.F.order[0])
            rpo.reverse()
            num = {x: i for i, x in enumerate(rpo)}
            dom = {rpo[0]: rpo[0]}
            ch = True
            while ch:
                ch = False
                for x in rpo[1:]:
                    n = None
                    for p in self.pre[x]:
                        if p in dom:
                            if n is None:
                                n = p
                            else:
                                q = p
                                while n != q:
                                    while num[q] > num[n]:
                                        q = dom[q]
                                    while num[n] > num[q]:
                                        n = dom[n]
                    if n is not None and dom.get(x) != n:
                        dom[x] = n
                        ch = True
            self.dom = dom
        d = self.dom.get(b)
        return None if d == b else d

def succ(T):
    if T.op == "br":
        return list(T.j["s"])
    if T.op == "switch":
        return [d for n, d in T.j["cs"]] + [T.j["d"]]
    return []

class FieldSets:
    def __init__(self, P, roots):
        self.P = P
        self.stores = {}              # field -> [(F, I)]
        self.touch = {}               # field -> functions that mention it
        self.sets = {}
        self.fns = {F.name: F for F in roots}
        for F in roots:
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op in ("store", "load") :
                        k = field_of(F, I.args[-1])
                        if k:
                            self.touch.setdefault(k, set()).add(F.name)
                            if I.op == "store" and I.j.get("sz") in (4, 8):
                                self.stores.setdefault(k, []).append((F, I))
        self.calls = {}
        for F in roots:
            self.calls[F.name] = {I.callee if I.callee else '*' for b in F.order for I in F.blocks[b] if I.op == "call"}
        self.clos = {}
        self.outs = {}
        self.ver = {}
        self.memo = {}
        self.val = {}                 # node -> values found so far (None: unbounded)
        self.out = {}                 # node -> [(node, map, what an unbounded value gives)]
        self.todo = deque()
    def closure(self, n):
        """functions a call can enter"""
        if n not in self.clos:
            out, work = set(), [n]
            while work:
                x = work.pop()
                if x not in out:
                    out.add(x)
                    work += self.calls.get(x, ())
            self.clos[n] = out
        return self.clos[n]
    def enters(self, I, key):
        """the call may lead to code that reads or writes the member"""
        if not I.callee:
            return not I.j.get("asm")
        return bool(self.closure(I.callee) & (self.touch.get(key, set()) | {'*'}))
    def points(self, key):
        """where the member's value becomes visible outside: [(F, base, block, index)]"""
        if key not in self.outs:
            out = []
            for F in {F.name: F for F, I in self.stores.get(key, ())}.values():
                bases = {base_of(F, I.args[1]) for G, I in self.stores[key] if G is F}
                for b in F.order:
                    for i, I in enumerate(F.blocks[b]):
                        if I.op == "ret" or I.op == "call" and self.enters(I, key):
                            out += [(F, base, b, i) for base in sorted(bases)]
            self.outs[key] = out
        return self.outs[key]
    def values(self, key):
        """frozenset of values or None when unbounded"""
        if key not in self.sets:
            self.get(('key', key))
            self.run()
            x = self.val[('key', key)]
            self.sets[key] = None if x is None else frozenset(x)
        return self.sets[key]
    # ---- the equations: what flows from node to node; solved upwards from the empty set, one value at a time
    def get(self, k):
        if k not in self.val:
            self.val[k] = set()
            self.out[k] = []
            self.todo.append((k, None))
        return k
    def run(self):
        while self.todo:
            k, x = self.todo.popleft()
            if x is None:
                self.build(k)
                continue
            for dst, f, top in self.out[k]:
                if self.val[dst] is not None and self.val[k] is not None:
                    self.put(dst, f(x))
    def put(self, k, xs):
        v = self.val[k]
        if v is None:
            return
        if xs is None:
            self.val[k] = None
            for dst, f, top in self.out[k]:
                self.put(dst, top)
            return
        for x in xs:
            if x not in v:
                v.add(x)
                self.todo.append((k, x))
        if len(v) > LIMIT:
            self.put(k, None)
    def link(self, dst, src, f, top=None):
        """values of src, mapped, are values of dst; `top`: what an unbounded src gives"""
        n, what, conds, _ = src
        if n is None:
            self.put(dst, top)
            return
        if n[0] == 'c':
            self.put(dst, f(n[1]))
            return
        g = f
        if conds:
            def g(x):
                for w, k in what:
                    if not self.holds(w, conds[0], conds[1], x, k):
                        return ()
                return f(x)
        self.out[n].append((dst, g, top))
        if self.val[n] is None:
            self.put(dst, top)
        else:
            for x in list(self.val[n]):
                self.put(dst, g(x))
    def build(self, k):
        one = lambda x: (x,)
        if k[0] == 'key':
            if k[1] not in self.stores:
                return self.put(k, None)
            self.put(k, (0,))
            for F, base, b, i in self.points(k[1]):
                for d in self.member(F, base, b, i, k[1]):
                    self.link(k, d, one)
        elif k[0] == 'm':
            F, (base, b, key), fl = self.fns[k[1]], k[2:], self.fl(self.fns[k[1]])
            for p in fl.pre[b]:
                n = len(F.blocks[p])
                w = ('m', base, self.version(F, base, p, n, key))
                conds = fl.edge(p, b) + fl.guards(p)
                for d in self.member(F, base, p, n, key):
                    self.link(k, d, (lambda x, w=w, conds=conds: (x,) if self.holds(w, F, conds, x, key) else ()))
        elif k[0] == 'i':
            self.ins(k, self.fns[k[1]], self.fns[k[1]].ins[k[2]])
    def fl(self, F):
        f = getattr(F, "flow", None)
        if f is None:
            f = F.flow = Flow(F)
        return f
    def last(self, F, base, b, i, key):
        """the definition of the member that is current at instruction i of block b, within the block"""
        for I in reversed(F.blocks[b][:i]):
            if I.op == "store" and field_of(F, I.args[1]) == key:
                return ('st', I) if base_of(F, I.args[1]) == base else ('any', I)
            if I.op == "call" and self.enters(I, key):
                return ('any', I)
        return None
    def version(self, F, base, b, i, key):
        """name of the member's value at a point; equal names are equal values"""
        d = self.last(F, base, b, i, key)
        if d is not None:
            return (d[0], d[1].id)
        fl = self.fl(F)
        k = (key, F.name, base, b)
        if k in self.ver:
            return self.ver[k]
        if b == F.order[0]:
            return ('in',)
        self.ver[k] = ('phi', b)
        vs = {self.version(F, base, p, len(F.blocks[p]), key) for p in fl.pre[b]} - {('phi', b)}
        r = vs.pop() if len(vs) == 1 else ('phi', b)
        if r[0] != 'phi':
            self.ver[k] = r
        return self.ver[k]
    def member(self, F, base, b, i, key):
        """where the member's value at a point comes from"""
        d = self.last(F, base, b, i, key)
        outer = (self.get(('key', key)), (), (), None)
        if d is None:
            return [outer if b == F.order[0] else (self.get(('m', F.name, base, b, key)), (), (), None)]
        if d[1].op != "store":
            return [outer]
        return [self.use(F, d[1].args[0], d[1])] + ([outer] if d[0] == 'any' else [])
    def holds(self, what, F, conds, x, key):
        """the value satisfies the conditions, as far as they can be evaluated"""
        for c, ok in conds:
            m = self.memo.setdefault((F.name, c, what, key), {})
            if None not in m:
                m[None] = self.mentions(F, c, what, key, 0)
            if not m[None]:
                continue
            if x not in m:
                m[x] = self.given(F, c, what, x, key, 0)
            if m[x] is not None and not ok(m[x]):
                return False
        return True
    def mentions(self, F, o, what, key, depth):
        """the operand depends on what is looked at (otherwise it says nothing, whatever the value)"""
        if o[0] != 'v' or o[1] not in F.ins or depth > 12:
            return False
        I = F.ins[o[1]]
        if self.given(F, o, what, 0, key, 12) is not None:
            return True
        return I.op not in ("load", "phi", "call") and any(self.mentions(F, y, what, key, depth + 1) for y in I.args)
    def given(self, F, o, what, x, key, depth):
        """value of an operand when the member's version, or the instruction, named by `what` has value x"""
        if o[0] == 'i':
            return o[1]
        if o[0] != 'v' or o[1] not in F.ins or depth > 12:
            return None
        I = F.ins[o[1]]
        if what == ('i', o[1]):
            return x
        if what[0] == 'm':
            if what[2] == ('st', I.id):
                return None
            if what[2][0] == 'st' and F.ins.get(what[2][1]) is None:
                S = self.bysid(F, what[2][1])
                if S is not None and S.args[0] == o:
                    return x
            if I.op == "load" and field_of(F, I.args[0]) == key and base_of(F, I.args[0]) == what[1]:
                b, i = self.fl(F).at[I.id]
                return x if self.version(F, what[1], b, i, key) == what[2] else None
        if I.op == "icmp":
            a, b = (self.given(F, y, what, x, key, depth + 1) for y in I.args)
            if a is None or b is None:
                return None
            w = next((WIDTH.get(F.types.get(y[1]), 64) for y in I.args if y[0] == 'v'), 64)
            p = I.j["p"]
            if p[0] == 'u':
                a, b, p = U(a, w), U(b, w), 's' + p[1:]
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p])
        w = WIDTH.get(I.t, 64)
        if I.op in ("zext", "sext", "trunc"):
            a = self.given(F, I.args[0], what, x, key, depth + 1)
            fw = WIDTH.get(I.j.get("ft"), 64)
            return None if a is None else conv(a & ((1 << fw) - 1) if I.op == "zext" else a, w)
        if I.op in FN:
            a, b = (self.given(F, y, what, x, key, depth + 1) for y in I.args)
            if a is None or b is None:
                return None
            z = FN[I.op](a, b, w)
            return None if z is None else conv(z, w)
        return None
    def bysid(self, F, sid):
        fl = self.fl(F)
        if sid not in fl.at:
            return None
        b, i = fl.at[sid]
        return F.blocks[b][i]
    def use(self, F, o, I, edge=None, more=()):
        """an operand where it is used: (node, what its value names, (function, conditions), member)"""
        if o[0] == 'i':
            return (('c', o[1]), (), (), None)
        if o[0] != 'v' or o[1] not in F.ins:
            return (None, (), (), None)
        n = self.get(('i', F.name, o[1]))
        fl = self.fl(F)
        conds = list(more) + ((fl.edge(*edge) + fl.guards(edge[0])) if edge else fl.guards(fl.at[I.id][0]))
        if not conds:
            return (n, (), (), None)
        D = F.ins[o[1]]
        what = [(('i', o[1]), None)]
        key = field_of(F, D.args[0]) if D.op == "load" else None
        if key:
            base = base_of(F, D.args[0])
            b, i = fl.at[D.id]
            what.append((('m', base, self.version(F, base, b, i, key)), key))
        return (n, what, (F, conds), None)
    def ins(self, k, F, I):
        w = WIDTH.get(I.t, 64)
        one = lambda x: (x,)
        if I.op == "load":
            key = field_of(F, I.args[0])
            if key is None:
                return self.put(k, None)
            b, i = self.fl(F).at[I.id]
            for d in self.member(F, base_of(F, I.args[0]), b, i, key):
                self.link(k, d, one)
        elif I.op == "phi":
            b = self.fl(F).at[I.id][0]
            for p, v in I.j["in"].items():
                self.link(k, self.use(F, v, I, (p, b)), one)
        elif I.op == "select":
            for v, want in ((I.args[1], 1), (I.args[2], 0)):
                self.link(k, self.use(F, v, I, None, [(I.args[0], lambda y, want=want: y == want)]), one)
        elif I.op in ("zext", "sext", "trunc"):
            fw = WIDTH.get(I.j.get("ft"), 64)
            z = I.op == "zext"
            self.link(k, self.use(F, I.args[0], I), lambda v: (conv(v & ((1 << fw) - 1) if z else v, w),))
        elif I.op == "icmp":
            self.put(k, (0, 1))
        elif I.op in FN and len(I.args) == 2:
            fn = FN[I.op]
            def pair(x, y):
                z = fn(x, y, w)
                return None if z is None else conv(z, w)
            a, b = I.args
            if a[0] == 'i' or b[0] == 'i':
                c, v, flip = (a[1], b, True) if a[0] == 'i' else (b[1], a, False)
                top = None
                if I.op == "and" and 0 <= c < 4096:
                    top = tuple(y for y in range(c + 1) if y & ~c == 0)
                if I.op == "urem" and not flip and 0 < c <= LIMIT:
                    top = tuple(range(c))
                def un(x):
                    z = pair(c, x) if flip else pair(x, c)
                    return None if z is None else (z,)
                self.link(k, self.use(F, v, I), un, top)
            else:
                opn = [('o', F.name, I.id, n) for n in (0, 1)]
                for n in opn:
                    self.val[n], self.out[n] = set(), []
                def both(n):
                    def f(x):
                        out = set()
                        other = self.val[opn[1 - n]]
                        if other is None or len(other) > 300:
                            return None
                        for y in other:
                            z = pair(x, y) if n == 0 else pair(y, x)
                            if z is None:
                                return None
                            out.add(z)
                        return out
                    return f
                for n in (0, 1):
                    self.out[opn[n]].append((k, both(n), None))
                    self.link(opn[n], self.use(F, I.args[n], I), one)
        else:
            self.put(k, None)

def base_of(F, o):
    """the object whose member a pointer operand addresses, as a string"""
    g = F.ins[o[1]]
    b = g.j["b"]
    if b[0] == 'v':
        h = F.ins.get(b[1])
        if h is not None and h.op == "getelementptr" and not h.j["vo"] and h.j.get("st", "").find("struct.") >= 0 and h.j["o"]:
            b = h.j["b"]
    return str(b)

def conv(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v

U = lambda x, w: x & ((1 << w) - 1)
FN = {"add": lambda x, y, w: x + y, "sub": lambda x, y, w: x - y, "mul": lambda x, y, w: x * y,
      "and": lambda x, y, w: x & y, "or": lambda x, y, w: x | y, "xor": lambda x, y, w: x ^ y,
      "urem": lambda x, y, w: U(x, w) % U(y, w) if y else None, "udiv": lambda x, y, w: U(x, w) // U(y, w) if y else None,
      "srem": lambda x, y, w: abs(x) % abs(y) * (1 if x >= 0 else -1) if y else None,
      "sdiv": lambda x, y, w: abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1) if y else None,
      "shl": lambda x, y, w: x << y if 0 <= y < w else None, "lshr": lambda x, y, w: U(x, w) >> y if 0 <= y < w else None,
      "ashr": lambda x, y, w: x >> y if 0 <= y < w else None}

def evaluate(v, name, x):
    """a condition or value of the engine with the symbol `name` replaced by the number x; None when it depends on more"""
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 's':
        n = v[1]
        if n == name:
            return x
        if n[0] == 'op':
            a, b = evaluate(n[2], name, x), evaluate(n[3], name, x)
            if a is None or b is None or n[1] not in FN:
                return None
            return FN[n[1]](a, b, 64)
        if n[0] in ('z', 't'):
            return evaluate(n[-1], name, x)
        return None
    if k == '+':
        a = evaluate(('s', v[1]), name, x)
        return None if a is None else a + v[2]
    if k == 'not':
        a = evaluate(v[1], name, x)
        return None if a is None else int(not a)
    if k in ('and', 'or'):
        a, b = evaluate(v[1], name, x), evaluate(v[2], name, x)
        if a is None or b is None:
            return None
        return int(bool(a and b) if k == 'and' else bool(a or b))
    if k == 'b':
        a, b = evaluate(v[2], name, x), evaluate(v[3], name, x)
        if a is None or b is None:
            return None
        p = v[1]
        if p[0] == 'u':
            a, b = a & (2**64 - 1), b & (2**64 - 1)
            p = 's' + p[1:]
        return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p])
    return None
