"""Bit-vector domain: hash-consed terms, equivalence by SMT sweeping (z3)."""
import random, time
import z3
from irx import Unsupported, Bug, MASK, sgn, Ptr

class Node:
    __slots__ = ("id", "op", "w", "a", "sig", "z")
    def __repr__(self): return "n%d:%s%d" % (self.id, self.op, self.w)

NS = 14
class BV:
    """the term store; also the VM domain"""
    def __init__(self, seed=1):
        self.tab = {}; self.n = 0; self.rnd = random.Random(seed); self.nodes = 0
        self.spec = {}          # (w, sig) -> spec node
        self.isspec = set()     # ids of spec nodes
        self.rep = {}           # id -> node it was proved equal to (or itself)
        self.lemmas = {}; self.stats = {"lemma_queries": 0, "lemma_hits": 0, "merged": 0, "z3_s": 0.0, "identical": 0, "failed": 0}
        self.thorough_merge = False
    def mk(self, op, w, *a):
        key = (op, w) + tuple((x.id if type(x) is Node else ("c", x)) for x in a)
        n = self.tab.get(key)
        if n is None:
            n = Node(); n.id = self.n; self.n += 1; n.op, n.w, n.a = op, w, a; n.z = None
            n.sig = tuple(evalop(op, w, [x.sig[k] if type(x) is Node else x for x in a], [x.w if type(x) is Node else None for x in a]) for k in range(NS))
            self.tab[key] = n
        return n
    def sym(self, name, w=8):
        key = ("sym", w, name); n = self.tab.get(key)
        if n is None:
            n = Node(); n.id = self.n; self.n += 1; n.op, n.w, n.a = "sym", w, (name,); n.z = None
            r = random.Random("%s/%d" % (name, w))
            n.sig = (0, MASK[w]) + tuple(r.getrandbits(w) for _ in range(NS - 2))
            self.tab[key] = n
        return n
    # ---- VM interface
    def binop(self, S, op, w, a, b, nsw=False):
        if type(a) is Ptr or type(b) is Ptr: raise Unsupported("pointer arithmetic")
        ca, cb = type(a) is int, type(b) is int
        if ca and cb: return evalop(op, w, [a, b], [w, w])
        if ca and op in ("add", "and", "or", "xor", "mul"): a, b, ca, cb = b, a, cb, ca
        if op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem") and not cb: raise Unsupported("symbolic " + op)
        if cb:
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
            if b == 0 and op in ("and", "mul"): return 0
            if op == "and" and b == MASK[w]: return a
            if op == "or" and b == MASK[w]: return b
            if op == "mul" and b == 1: return a
            if op in ("shl", "lshr", "ashr") and b >= w: raise Bug("shift count")
        if a is b:
            if op in ("xor", "sub"): return 0
            if op in ("and", "or"): return a
        if op == "xor": return self.xor(w, a, b)
        if op in ("add", "and", "or", "mul") and not cb and a.id > b.id: a, b = b, a
        return self.mk(op, w, a, b)
    def xor(self, w, *xs):
        """exclusive or of any number of words: operands sorted, pairs cancelled, constants folded"""
        c = 0; odd = {}
        st = list(xs)
        while st:
            x = st.pop()
            if type(x) is int: c ^= x
            elif x.op == "xor" and len(odd) < 12: st.extend(x.a)
            elif x.id in odd: del odd[x.id]
            else: odd[x.id] = x
        ls = [odd[k] for k in sorted(odd)]
        if not ls: return c
        r = ls[0]
        for x in ls[1:]: r = self.mk("xor", w, r, x)
        return self.mk("xor", w, r, c) if c else r
    def cast(self, S, k, w1, w2, a):
        if type(a) is int: return (sgn(a, w1) if k == "sext" else a) & MASK[w2]
        if k == "trunc": return self.extract(a, 0, w2)
        return self.mk(k, w2, a)
    def extract(self, a, lo, w):
        if type(a) is int: return a >> lo & MASK[w]
        if lo == 0 and w == a.w: return a
        if a.op == "concat" and lo % 8 == 0 and w % 8 == 0:
            return a.a[lo // 8] if w == 8 else self.concat(a.a[lo // 8:(lo + w) // 8])
        if a.op == "ext": return self.extract(a.a[0], lo + a.a[1], w)
        if a.op in ("xor", "and", "or") and lo % 8 == 0 and w % 8 == 0 and all(type(y) is int or y.op == "concat" for y in a.a):
            return self.binop(None, a.op, w, self.extract(a.a[0], lo, w), self.extract(a.a[1], lo, w))
        if a.op == "zext" and lo + w <= a.a[0].w: return self.extract(a.a[0], lo, w)
        return self.mk("ext", w, a, lo)
    def byte(self, v, i, n):
        if type(v) is int: return v >> (8 * i) & 255
        return self.extract(v, 8 * i, 8)
    def concat(self, bs):
        if all(type(b) is int for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
        b0 = bs[0]
        if type(b0) is Node and b0.op == "ext" and b0.a[1] == 0 and b0.a[0].w == 8 * len(bs):
            if all(type(b) is Node and b.op == "ext" and b.a[0] is b0.a[0] and b.a[1] == 8 * i for i, b in enumerate(bs)): return b0.a[0]
        return self.mk("concat", 8 * len(bs), *bs)
    def icmp(self, S, pred, w, a, b):
        if a is b: return int(pred in ("eq", "ule", "uge", "sle", "sge"))
        return self.mk("cmp_" + pred, 1, a, b) if type(a) is Node else self.mk("rcmp_" + pred, 1, b, a)
    def select(self, S, w, c, a, b):
        if type(a) is Ptr or type(b) is Ptr: raise Unsupported("select of pointers")
        if w == 1 and type(a) is int and type(b) is int: return c if a else self.binop(S, "xor", 1, c, 1)
        return self.mk("ite", w, c, a, b)
    def undef(self, S, o, f):
        self.und = getattr(self, "und", 0) + 1
        return self.sym("undef%d" % self.und)
    def range(self, S, v): raise Unsupported("symbolic index")
    def lookup(self, *a): raise Unsupported("symbolic index")
    def store_sym(self, *a): raise Unsupported("symbolic store")
    def concretise(self, S, v): raise Unsupported("symbolic size")
    def decide(self, S, c):
        pc = S.facts or []
        out = []
        for want in (1, 0):
            s = z3.Solver(); s.set("timeout", 20000)
            for x, v in pc: s.add(self.to_z3(x) == v)
            s.add(self.to_z3(c) == want)
            out.append(s.check() != z3.unsat)
        return tuple(out)
    def assume(self, S, c, t):
        S.facts = (S.facts or []) + [(c, int(t))]
    # ---- z3
    def to_z3(self, n, leaves=None, memo=None):
        """term of a node; nodes in `leaves` are free variables"""
        if memo is None: memo = {}
        st = [n]
        while st:
            x = st[-1]
            if type(x) is int or x.id in memo: st.pop(); continue
            if x.op == "sym" or (leaves is not None and x.id in leaves):
                memo[x.id] = z3.BitVec("v%d" % x.id if leaves is None else "l%d" % (leaves[x.id] if isinstance(leaves, dict) else x.id), x.w); st.pop(); continue
            pend = [y for y in x.a if type(y) is Node and y.id not in memo]
            if pend: st.extend(pend); continue
            memo[x.id] = zop(x, [memo[y.id] if type(y) is Node else y for y in x.a]); st.pop()
        return memo[n.id] if type(n) is Node else n
    # ---- specification side
    def mark_spec(self, n):
        """register a spec node and everything below it as merge targets"""
        if type(n) is not Node: return
        st = [n]
        while st:
            x = st.pop()
            if x.id in self.isspec: continue
            self.isspec.add(x.id); self.spec.setdefault((x.w, x.sig), []).append(x); self.rep[x.id] = x
            st.extend(y for y in x.a if type(y) is Node)
    # ---- sweeping
    def sweep(self, outs):
        """representatives of the given nodes after merging with spec nodes"""
        res = []
        for o in outs:
            if type(o) is int: res.append(o); continue
            st = [o]
            while st:
                x = st[-1]
                if x.id in self.rep: st.pop(); continue
                pend = [y for y in x.a if type(y) is Node and y.id not in self.rep]
                if pend: st.extend(pend); continue
                st.pop(); self.rep[x.id] = self._merge(x)
            res.append(self.rep[o.id])
        return res
    def _merge(self, x):
        if x.op == "sym": return x
        a = [self.rep[y.id] if type(y) is Node else y for y in x.a]
        if all(p is q for p, q in zip(a, x.a)): n = x
        elif not any(type(p) is Node for p in a): n = evalop(x.op, x.w, a, [y.w if type(y) is Node else None for y in x.a])
        else: n = self.rebuild(x.op, x.w, a)
        if type(n) is int: return n
        if n.id in self.isspec: self.stats["identical"] += 1; return n
        if n.id in self.rep and n is not x: return self.rep[n.id]
        if all(v == n.sig[0] for v in n.sig): 
            if self.prove(n, n.sig[0]): self.stats["merged"] += 1; return n.sig[0]
        cands = self.spec.get((n.w, n.sig))
        if cands is not None:
            # most recently built first: the counterpart is usually near
            for s in sorted(cands, key=lambda s: (s.op != n.op, -s.id))[:8]:
                if self.prove(n, s, (6, 12), 400): self.stats["merged"] += 1; return s
            if self.thorough_merge:
                for s in cands[:4]:
                    if self.prove(n, s, (25,), 5000): self.stats["merged"] += 1; return s
            self.stats["failed"] += 1
        self.rep[n.id] = n
        return n
    def rebuild(self, op, w, a):
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"): return self.binop(None, op, w, *a)
        if op == "ext": return self.extract(a[0], a[1], w)
        if op == "concat": return self.concat(a)
        if op in ("zext", "sext"):
            return self.cast(None, op, 0, w, a[0]) if type(a[0]) is Node else self.mk(op, w, *a)
        if all(type(v) is int for v in a): return evalop(op, w, list(a), [None] * len(a))
        return self.mk(op, w, *a)
    def below(self, s, depth, cap=600):
        """ids of nodes within `depth` levels below s"""
        out = {s.id}; cur = [s]
        for _ in range(depth):
            nx = []
            for x in cur:
                for y in x.a:
                    if type(y) is Node and y.id not in out: out.add(y.id); nx.append(y)
            cur = nx
            if len(out) > cap: break
        return out
    def cone(self, n, stop):
        """leaves of n's cone, not expanding `stop` nodes; None when too big"""
        leaves = []; seen = set(); st = [n]; inner = 0
        while st:
            x = st.pop()
            if type(x) is not Node or x.id in seen: continue
            seen.add(x.id)
            if x.op == "sym" or (x is not n and stop(x)): leaves.append(x); continue
            inner += 1
            if inner > 300: return None
            st.extend(reversed([y for y in x.a]))
        return leaves
    def prove(self, n, s, depths=(6, 12), ms=1000):
        """n == s for all values (s a spec node or a constant); shared nodes below both are cut points"""
        if type(s) is int:
            for stop in (lambda x: x.id in self.isspec, lambda x: False):
                l = self.cone(n, stop)
                if l is not None and self.query(n, s, l, ms): return True
            return False
        for depth in depths:
            b = self.below(s, depth)
            # leaves of n: nodes also found below s (so both sides can be expressed over them)
            ex = set(); tried = None
            for rnd in range(5):
                l = self.cut(n, s, b, ex)
                if l is None: break
                k = frozenset(x.id for x in l)
                if k != tried:
                    if self.query(n, s, l, ms): return True
                    tried = k
                # a cut point that is a function of another one is expanded
                add = {x.id for x in l if x.op != "sym" and (self.below(x, 6, 200) - {x.id}) & k}
                if not add: break
                ex |= add
            # finer: every cut point a level deeper
            l = self.cut(n, s, b, set())
            if l is None: continue
            l = self.cut(n, s, b, {x.id for x in l if x.op != "sym"})
            if l is not None and self.query(n, s, l, ms): return True
        return False
    def cut(self, n, s, b, ex):
        l = self.cone(n, lambda x: x.id in b and x.id not in ex and x is not s)
        if l is None: return None
        ls = {x.id for x in l}
        l2 = self.cone(s, lambda x: x.id in ls)
        if l2 is None: return None
        return l + [x for x in l2 if x.id not in ls]
    def query(self, n, s, leaves, ms):
        if len(leaves) > 100: return False
        names = {}
        for x in leaves: names[x.id] = len(names)
        k1 = self.shape(n, names); k2 = self.shape(s, names) if type(s) is Node else ("const", s)
        hs = [self.bound(x) for x in leaves]
        key = (k1, k2, tuple(x.w for x in leaves), tuple(hs))
        r = self.lemmas.get(key)
        if r is not None: self.stats["lemma_hits"] += 1; return r
        t0 = time.time()
        m = {}
        a = self.to_z3(n, names, m)
        b = self.to_z3(s, names, m) if type(s) is Node else z3.BitVecVal(s, n.w)
        so = z3.SolverFor("QF_BV"); so.set("timeout", ms); so.add(a != b)
        for x, h in zip(leaves, hs):
            if h is not None and x.id in m: so.add(z3.ULE(m[x.id], h))
        r = so.check() == z3.unsat
        self.stats["z3_s"] += time.time() - t0; self.stats["lemma_queries"] += 1
        self.lemmas[key] = r
        return r
    def bound(self, x): return None
    def shape(self, n, names):
        num = {}; out = []
        def go(x):
            if type(x) is not Node: return ("c", x)
            if x.id in names: return ("l", names[x.id])
            k = num.get(x.id)
            if k is not None: return ("r", k)
            e = (x.op, x.w) + tuple(go(y) for y in x.a)
            num[x.id] = len(out); out.append(e)
            return ("r", num[x.id])
        return (go(n), tuple(out))
    def evaluate(self, n, env):
        """value of a node under an assignment name -> int (0 if absent)"""
        memo = {}
        st = [n]
        while st:
            x = st[-1]
            if type(x) is int or x.id in memo: st.pop(); continue
            if x.op == "sym": memo[x.id] = env.get(x.a[0], 0); st.pop(); continue
            pend = [y for y in x.a if type(y) is Node and y.id not in memo]
            if pend: st.extend(pend); continue
            memo[x.id] = evalop(x.op, x.w, [memo[y.id] if type(y) is Node else y for y in x.a], [y.w if type(y) is Node else None for y in x.a]); st.pop()
        return memo[n.id] if type(n) is Node else n

def evalop(op, w, a, ws):
    m = MASK[w]
    if op == "add": return (a[0] + a[1]) & m
    if op == "sub": return (a[0] - a[1]) & m
    if op == "mul": return a[0] * a[1] & m
    if op == "and": return a[0] & a[1]
    if op == "or": return a[0] | a[1]
    if op == "xor": return a[0] ^ a[1]
    if op == "shl": return a[0] << a[1] & m
    if op == "lshr": return a[0] >> a[1]
    if op == "ashr": return sgn(a[0], w) >> a[1] & m
    if op == "zext": return a[0]
    if op == "sext": return sgn(a[0], ws[0]) & m
    if op == "ext": return a[0] >> a[1] & m
    if op == "concat": return sum(x << (8 * i) for i, x in enumerate(a))
    if op == "ite": return a[1] if a[0] else a[2]
    if op.startswith("cmp_") or op.startswith("rcmp_"):
        x, y = (a[0], a[1]) if op[0] == "c" else (a[1], a[0])
        ww = (ws[0] or ws[1]); p = op.split("_")[1]
        from irx import conc_cmp
        return conc_cmp(p, ww, x, y)
    raise Unsupported("eval " + op)

def zop(x, a):
    op, w = x.op, x.w
    def bv(v, ww): return z3.BitVecVal(v, ww) if type(v) is int else v
    if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
        p, q = bv(a[0], w), bv(a[1], w)
        return {"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q,
                "shl": lambda: p << q, "lshr": lambda: z3.LShR(p, q), "ashr": lambda: p >> q}[op]()
    if op == "zext": return z3.ZeroExt(w - x.a[0].w, a[0])
    if op == "sext": return z3.SignExt(w - x.a[0].w, a[0])
    if op == "ext": return z3.Extract(a[1] + w - 1, a[1], a[0])
    if op == "concat": return z3.Concat(*[bv(v, 8) for v in reversed(a)])
    if op == "ite": return z3.If(a[0] == 1, bv(a[1], w), bv(a[2], w))
    if op.startswith("cmp_") or op.startswith("rcmp_"):
        ww = next(y.w for y in x.a if type(y) is Node)
        p, q = bv(a[0], ww), bv(a[1], ww)
        if op[0] == "r": p, q = q, p
        k = op.split("_")[1]
        c = {"eq": lambda: p == q, "ne": lambda: p != q, "ult": lambda: z3.ULT(p, q), "ule": lambda: z3.ULE(p, q), "ugt": lambda: z3.UGT(p, q), "uge": lambda: z3.UGE(p, q),
             "slt": lambda: p < q, "sle": lambda: p <= q, "sgt": lambda: p > q, "sge": lambda: p >= q}[k]()
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    raise Unsupported("z3 " + op)
