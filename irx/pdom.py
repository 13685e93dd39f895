"""General path domain: bit-vector terms (bvdom) with table look-ups, data-dependent branches,
indices and sizes decided by z3 under the path condition."""
import random, time
import z3
import bvdom
from bvdom import BV, Node, evalop as _evalop, zop as _zop
from irx import Unsupported, Bug, MASK, sgn, Ptr, Split

def evalop(op, w, a, ws):
    if op == "tab": return a[1][a[0]] if a[0] < len(a[1]) else 0
    if op == "udiv": return a[0] // a[1]
    if op == "urem": return a[0] % a[1]
    if op in ("sdiv", "srem"):
        x, y = sgn(a[0], w), sgn(a[1], w); q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
        return (q if op == "sdiv" else x - q * y) & MASK[w]
    return _evalop(op, w, a, ws)
TABS = {}
def zop(x, a):
    if x.op == "tab":
        t = x.a[1]; iw = x.a[0].w; k = len(t)
        def rec(lo, hi):
            if all(t[i] == t[lo] for i in range(lo, hi)): return z3.BitVecVal(t[lo], x.w)
            m = (lo + hi) // 2
            return z3.If(z3.ULT(a[0], m), rec(lo, m), rec(m, hi))
        key = (x.w, iw, t); q = TABS.get(key)
        if q is None: v = a[0]; a = [z3.BitVec("idx%d" % iw, iw)]; q = TABS[key] = (a[0], rec(0, k)); a = [v]
        return z3.substitute(q[1], (q[0], a[0]))
    if x.op in ("udiv", "urem", "sdiv", "srem"):
        p, q = a[0], z3.BitVecVal(a[1], x.w) if type(a[1]) is int else a[1]
        return {"udiv": lambda: z3.UDiv(p, q), "urem": lambda: z3.URem(p, q), "sdiv": lambda: p / q, "srem": lambda: z3.SRem(p, q)}[x.op]()
    return _zop(x, a)
bvdom.evalop, bvdom.zop = evalop, zop

class PF:
    __slots__ = ("pc", "known", "models")
    def __init__(self): self.pc, self.known, self.models = [], {}, []
    def copy(self):
        f = PF(); f.pc = list(self.pc); f.known = dict(self.known); f.models = list(self.models); return f

class PDom(BV):
    def __init__(self, seed=1):
        super().__init__(seed); self.stats.update(queries=0, model_hits=0, unknown=0); self.memo = {}; self.names = {}; self.his = {}
    def facts(self, S):
        if S.facts is None: S.facts = PF()
        return S.facts
    def binop(self, S, op, w, a, b, nsw=False):
        if op in ("udiv", "urem", "sdiv", "srem") and type(b) is int and type(a) is Node:
            if b == 0: raise Bug("division by zero")
            return self.mk(op, w, a, b)
        if op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem") and type(b) is Node:
            b = self.concretise(S, b)
            if op in ("shl", "lshr", "ashr") and b >= w: raise Bug("shift count")
            return self.binop(S, op, w, a, b) if type(a) is Node else evalop(op, w, [a, b], [w, w])
        return super().binop(S, op, w, a, b, nsw)
    def icmp(self, S, pred, w, a, b):
        # conditions that went through an integer
        if type(a) is int and type(b) is Node and pred in ("eq", "ne"): a, b = b, a
        if type(a) is Node and type(b) is int and pred in ("eq", "ne"):
            x = a
            while x.op in ("zext", "sext") and x.a[0].w > 1: x = x.a[0]
            if x.op in ("zext", "sext") and x.a[0].w == 1:
                t = 1 if x.op == "zext" else MASK[x.w]; c = x.a[0]
                r = c if b == t else self.b_not(c) if b == 0 else 0
                return r if pred == "eq" else self.b_not(r)
            if x is a and x.op == "ite" and type(x.a[1]) is int and type(x.a[2]) is int:
                u, v = x.a[1] == b, x.a[2] == b
                r = 1 if u and v else x.a[0] if u else self.b_not(x.a[0]) if v else 0
                return r if pred == "eq" else self.b_not(r)
            if a.w == 1: 
                r = a if b & 1 else self.b_not(a); return r if pred == "eq" else self.b_not(r)
        return super().icmp(S, pred, w, a, b)
    def assign(self, m, n, memo):
        """value of a node under the assignment m (symbols not in it are 0)"""
        st = [n]
        while st:
            x = st[-1]
            if type(x) is int or x.id in memo: st.pop(); continue
            if x.op == "sym": memo[x.id] = m.get(x.a[0], 0); st.pop(); continue
            p = [y for y in x.a if type(y) is Node and y.id not in memo]
            if p: st.extend(p); continue
            memo[x.id] = evalop(x.op, x.w, [memo[y.id] if type(y) is Node else y for y in x.a], [y.w if type(y) is Node else None for y in x.a]); st.pop()
        return memo[n.id] if type(n) is Node else n
    def solver(self, f):
        s = z3.Solver(); s.set("timeout", 20000)
        for x, v in f.pc: s.add(self.to_z3(x, memo=self.memo) == v)
        return s
    def to_z3(self, n, leaves=None, memo=None):
        r = super().to_z3(n, leaves, memo)
        return r
    def model(self, s):
        m = s.model(); o = {}
        for d in m.decls():
            k = self.byid.get(d.name())
            if k is not None: o[k] = m[d].as_long()
        return o
    byid = {}
    def sym(self, name, w=8):
        n = super().sym(name, w); self.byid["v%d" % n.id] = name
        return n
    def check(self, S, c, v):
        """is (c == v) possible on this path?  yields a model or None"""
        f = self.facts(S)
        for m, memo in f.models:
            if self.assign(m, c, memo) == v: self.stats["model_hits"] += 1; return m
        t = time.time(); s = self.solver(f); s.add(self.to_z3(c, memo=self.memo) == v); r = s.check()
        self.stats["queries"] += 1; self.stats["z3_s"] += time.time() - t
        if r == z3.unsat: return None
        if r == z3.unknown: self.stats["unknown"] += 1; return {}
        m = self.model(s); f.models.append((m, {})); return m
    def decide(self, S, c):
        f = self.facts(S)
        if c.id in f.known: k = f.known[c.id]; return (bool(k), not k)
        return (self.check(S, c, 1) is not None, self.check(S, c, 0) is not None)
    def assume(self, S, c, t):
        f = self.facts(S); t = int(t)
        if type(c) is int: return
        if c.id not in f.known: f.pc.append((c, t)); f.known[c.id] = t
        f.models = [x for x in f.models if self.assign(x[0], c, x[1]) == t]
    def values(self, S, v, cap=70):
        f = self.facts(S); s = self.solver(f); z = self.to_z3(v, memo=self.memo); out = []
        while len(out) <= cap:
            r = s.check(); self.stats["queries"] += 1
            if r != z3.sat: break
            x = s.model().eval(z, model_completion=True).as_long(); out.append(x); s.add(z != x)
        if len(out) > cap: raise Unsupported("too many values of an index or size")
        return out
    def select(self, S, w, c, a, b):
        if type(a) is Ptr or type(b) is Ptr:
            t, e = self.decide(S, c)
            if t and e: raise Split([(c, True), (c, False)])
            return a if t else b
        return super().select(S, w, c, a, b)
    # ---- joining of paths (merge.py)
    def b_not(self, c): return 1 - c if type(c) is int else self.binop(None, "xor", 1, c, 1)
    def b_and(self, xs):
        r = 1
        for x in xs: r = x if type(r) is int and r else r if type(x) is int and x else self.binop(None, "and", 1, r, x)
        return r
    def split_facts(self, A, B):
        """(what A adds to the common facts, what B adds, the common facts, do they cover everything)"""
        fa, fb = self.facts(A), self.facts(B); k = 0
        while k < len(fa.pc) and k < len(fb.pc) and fa.pc[k][0] is fb.pc[k][0] and fa.pc[k][1] == fb.pc[k][1]: k += 1
        xa, xb = fa.pc[k:], fb.pc[k:]
        # the same fact on both sides, wherever it stands, is common
        ka, kb = {(c.id, v) for c, v in xa}, {(c.id, v) for c, v in xb}
        pre = fa.pc[:k] + [(c, v) for c, v in xa if (c.id, v) in kb]
        xa = [(c, v) for c, v in xa if (c.id, v) not in kb]; xb = [(c, v) for c, v in xb if (c.id, v) not in ka]
        lit = lambda c, v: c if v else self.b_not(c)
        ca, cb = self.b_and([lit(*x) for x in xa]), self.b_and([lit(*x) for x in xb])
        if type(ca) is int or type(cb) is int: return None, None, None, False
        taut = len(xa) == 1 and len(xb) == 1 and xa[0][0] is xb[0][0]
        return ca, cb, pre, taut
    def join_facts(self, A, B, pre, ca, cb, taut):
        fa, fb = self.facts(A), self.facts(B); f = PF(); f.pc = list(pre)
        f.known = {k: v for k, v in fa.known.items() if fb.known.get(k) == v}
        if not taut:
            c = self.binop(None, "or", 1, ca, cb)
            if c is not None and type(c) is Node: f.pc.append((c, 1)); f.known[c.id] = 1
        seen = set(); f.models = []
        for m in fa.models + fb.models:
            if id(m[0]) not in seen: seen.add(id(m[0])); f.models.append(m)
        return f
    def ite(self, w, c, x, y):
        if w == 1:
            if type(x) is int and type(y) is int: return c if x else self.b_not(c)
            if type(x) is int: return self.binop(None, "or", 1, c, y) if x else self.binop(None, "and", 1, self.b_not(c), y)
            if type(y) is int: return self.binop(None, "or", 1, self.b_not(c), x) if y else self.binop(None, "and", 1, c, x)
        return self.mk("ite", w, c, x, y)
    def concretise(self, S, v):
        f = self.facts(S); k = f.known.get(("val", v.id))
        if k is not None: return k
        vs = self.values(S, v)
        if not vs: from irx import Dead; raise Dead()
        if len(vs) == 1: f.known[("val", v.id)] = vs[0]; return vs[0]
        raise Split([(self.icmp(S, "eq", v.w, v, x), True) for x in vs])
    def range(self, S, v):
        """cheap bounds of an index from its term"""
        h = self.hi(v)
        if h > 4096: 
            vs = self.values(S, v, 300); return min(sgn(x, v.w) for x in vs), max(sgn(x, v.w) for x in vs)
        return 0, h
    def hi(self, x):
        """upper bound of a term"""
        if type(x) is int: return x
        r = self.his.get(x.id)
        if r is None: r = self.his[x.id] = min(self._hi(x), MASK[x.w])
        return r
    def _hi(self, x):
        op, a = x.op, x.a; m = MASK[x.w]
        if op == "tab": return max(a[1])
        if op == "and": return min(self.hi(y) for y in a)
        if op == "lshr" and type(a[1]) is int: return self.hi(a[0]) >> a[1]
        if op == "zext": return self.hi(a[0])
        if op == "ext": h = self.hi(a[0]) >> a[1]; return h if h <= m else m
        if op == "shl" and type(a[1]) is int: h = self.hi(a[0]) << a[1]; return h if h <= m else m
        if op == "mul" and type(a[1]) is int: h = self.hi(a[0]) * a[1]; return h if h <= m else m
        if op == "add": h = sum(self.hi(y) for y in a); return h if h <= m else m
        if op == "ite": return max(self.hi(a[1]), self.hi(a[2]))
        if op in ("or", "xor"): return (1 << max(self.hi(y) for y in a).bit_length()) - 1
        if op == "concat":
            h = 0
            for i, y in enumerate(a): h |= self.hi(y) << (8 * i)
            return h
        if op == "udiv" and type(a[1]) is int: return self.hi(a[0]) // a[1]
        if op == "urem" and type(a[1]) is int: return a[1] - 1
        return m
    def feasible_outside(self, S, v, lo, hi):
        c = self.icmp(S, "ugt", v.w, v, hi)
        if type(c) is int: return bool(c)
        m = self.check(S, c, 1)
        if m is not None: self.assume(S, c, True)
        return m is not None
    def lookup(self, S, tab, lo, idx, n):
        if any(type(t) is not int for t in tab) or len(tab) > 4096: return None
        if lo != 0: tab = [0] * lo + list(tab)
        t = tuple(tab); w = 8 * n
        return self.table(w, idx, t)
    def table(self, w, idx, t):
        """t[idx]; a look-up of a looked-up value is one look-up, an identity table none"""
        x = idx
        while type(x) is Node and x.op in ("zext", "ext") and (x.op == "zext" or x.a[1] == 0 and self.hi(x.a[0]) <= MASK[x.w]): x = x.a[0]
        if type(x) is Node and x.op in ("mul", "shl") and type(x.a[1]) is int and type(x.a[0]) is Node:
            k = x.a[1] if x.op == "mul" else 1 << x.a[1]
            if 0 < k and self.hi(x.a[0]) * k <= MASK[x.w]: return self.table(w, x.a[0], t[::k])
        if type(x) is Node and x.op == "tab": return self.table(w, x.a[0], tuple(t[v] if v < len(t) else 0 for v in x.a[1]))
        n = min(len(t), self.hi(x) + 1); t = t[:n]
        if all(v == t[0] for v in t) and n > self.hi(x): return t[0]
        if all(v == i for i, v in enumerate(t)) and self.hi(x) < n: return self.fit(x, w)
        return self.mk("tab", w, x, t)
    def bound(self, x):
        h = self.hi(x); return h if h < MASK[x.w] else None
    def rebuild(self, op, w, a):
        if op == "tab": return self.table(w, a[0], a[1])
        if op == "ite" and type(a[0]) is int: return a[1] if a[0] else a[2]
        return super().rebuild(op, w, a)
    def fit(self, x, w): return x if x.w == w else self.cast(None, "zext", x.w, w, x) if x.w < w else self.extract(x, 0, w)
    def store_sym(self, S, p, v, n):
        k = self.concretise(S, p.f)
        self.vm.store(S, Ptr(p.o, sgn(k & MASK[64], 64)), v, n)
    def equal(self, S, x, y, w):
        """x == y on every input of this path?  True, or a model of a difference"""
        if x is y or (type(x) is int and type(y) is int and x == y): return True
        if type(x) is Ptr or type(y) is Ptr: return True if type(x) is type(y) and x.o == y.o and x.f == y.f else {}
        if type(x) is int and type(y) is int: m = self.check_any(S); return m
        c = self.icmp(S, "ne", w, x, y) if type(x) is Node else self.icmp(S, "ne", w, y, x)
        if type(c) is int: return True if not c else self.check_any(S)
        m = self.check(S, c, 1)
        return True if m is None else m
    def check_any(self, S):
        f = self.facts(S)
        if f.models: return f.models[0][0]
        s = self.solver(f)
        return self.model(s) if s.check() == z3.sat else True
