"""Integer domain: values are linear forms over bytes with exact floor terms
flr(L, m); single-byte functions are 256-entry tables.  Path conditions are decided
by z3 (linear integer arithmetic over the bytes)."""
import time
import z3
from irx import Unsupported, Bug, MASK, sgn, Ptr, Split, conc_bin, conc_cmp

class Var:
    """an index variable: a byte, or a linear form with a small range"""
    __slots__ = ("id", "kind", "lin", "lo", "hi", "name", "ix")
class Atom:
    __slots__ = ("id", "kind", "var", "tab", "lin", "m", "lo", "hi", "one")
class Lin:
    __slots__ = ("id", "t", "c", "lo", "hi", "nb", "one", "z")
class V:
    __slots__ = ("l", "lo", "hi")
    def __init__(self, l, lo, hi): self.l, self.lo, self.hi = l, lo, hi
    def __repr__(self): return "V[%d..%d]" % (self.lo, self.hi)
class B:
    """table function of an index variable (None: value not possible there)"""
    __slots__ = ("var", "tab", "w")
    def __init__(self, var, tab, w): self.var, self.tab, self.w = var, tab, w
    def __repr__(self): return "B(%s)" % self.var.name
class Cond:
    """lin == 0 / lin < 0 / lin in values, possibly negated"""
    __slots__ = ("kind", "lin", "pos", "vals")
    def __init__(self, kind, lin, pos=True, vals=None): self.kind, self.lin, self.pos, self.vals = kind, lin, pos, vals
    def neg(self): return Cond(self.kind, self.lin, not self.pos, self.vals)

class Facts:
    __slots__ = ("sets", "cons", "fixed", "model", "linvars")
    def __init__(self): self.sets = {}; self.cons = []; self.fixed = {}; self.model = {}; self.linvars = set()
    def copy(self):
        f = Facts(); f.sets = dict(self.sets); f.cons = list(self.cons); f.fixed = dict(self.fixed); f.model = self.model; f.linvars = set(self.linvars); return f

class IntDom:
    def __init__(self):
        self.atoms = []; self.akey = {}; self.lkey = {}; self.vars = []; self.vkey = {}
        self.stats = {"queries": 0, "z3_s": 0.0, "model_hits": 0, "unknown": 0}
        self.nterms = 0; self.last = None; self.full = {}; self.gat = {}; self.tvc = {}
    # ---------------------------------------------------------- terms
    def byte_var(self, name, allowed=None):
        v = Var(); v.id = len(self.vars); v.kind = "byte"; v.lin = None; v.lo, v.hi = 0, 255; v.name = name; self.vars.append(v)
        return v
    def lin_var(self, lin, lo, hi):
        k = (lin.id, lo, hi); v = self.vkey.get(k)
        if v is None:
            v = Var(); v.id = len(self.vars); v.kind = "lin"; v.lin, v.lo, v.hi = lin, lo, hi; v.name = "lin%d" % lin.id; self.vars.append(v); self.vkey[k] = v
        return v
    def sym_byte(self, name):
        v = self.byte_var(name); return B(v, IDENT, 8)
    def atom(self, key, kind, var=None, tab=None, lin=None, m=None, lo=0, hi=0, one=None):
        a = self.akey.get(key)
        if a is None:
            a = Atom(); a.id = len(self.atoms); a.kind, a.var, a.tab, a.lin, a.m, a.lo, a.hi, a.one = kind, var, tab, lin, m, lo, hi, one
            self.atoms.append(a); self.akey[key] = a
        return a
    def mklin(self, t, c):
        t = {k: v for k, v in t.items() if v}
        key = (c, frozenset(t.items())); l = self.lkey.get(key)
        if l is None:
            l = Lin(); l.id = self.nterms; self.nterms += 1; l.t, l.c = t, c; l.z = None
            lo = hi = c; nb = []; one = None; first = True
            at = self.atoms
            for k, v in t.items():
                a = at[k]
                if v > 0: lo += v * a.lo; hi += v * a.hi
                else: lo += v * a.hi; hi += v * a.lo
                if a.kind != "byte": nb.append(a)
                if first: one = a.one; first = False
                elif one is not a.one: one = None
            l.lo, l.hi, l.nb, l.one = lo, hi, nb, one
            self.lkey[key] = l
        return l
    def const(self, c): return self.mklin({}, c)
    def lin_atom(self, a): return self.mklin({a.id: 1}, 0)
    def lincomb(self, x, a, y, b):
        """a*x + b*y"""
        if b == 0: t = {k: v * a for k, v in x.t.items()}; return self.mklin(t, x.c * a)
        t = dict(x.t) if a == 1 else {k: v * a for k, v in x.t.items()}
        for k, v in y.t.items():
            n = t.get(k, 0) + v * b
            if n: t[k] = n
            else: t.pop(k, None)
        return self.mklin(t, x.c * a + y.c * b)
    def flr(self, l, m):
        """floor(l / m) as a linear form"""
        q = {}; r = {}
        for k, c in l.t.items():
            d, e = divmod(c, m)
            if d: q[k] = d
            if e: r[k] = e
        qc, rc = divmod(l.c, m)
        if not r: return self.mklin(q, qc)
        # nested: floor((others + flr(R, p)) / m) = floor((p*others + R) / (p*m))
        f = [k for k in r if self.atoms[k].kind == "F"]
        if len(f) == 1 and r[f[0]] == 1:
            a = self.atoms[f[0]]
            t = {k: c * a.m for k, c in r.items() if k != a.id}
            for k, c in a.lin.t.items(): t[k] = t.get(k, 0) + c
            return self.addq(q, qc, self.flr(self.mklin(t, rc * a.m + a.lin.c), a.m * m))
        R = self.mklin(r, rc)
        lo, hi = R.lo // m, R.hi // m
        if lo == hi: return self.mklin(q, qc + lo)
        a = self.atom(("F", R.id, m), "F", lin=R, m=m, lo=lo, hi=hi, one=R.one)
        q = dict(q); q[a.id] = q.get(a.id, 0) + 1
        return self.mklin(q, qc)
    def addq(self, q, qc, l):
        t = dict(q)
        for k, c in l.t.items():
            n = t.get(k, 0) + c
            if n: t[k] = n
            else: t.pop(k, None)
        return self.mklin(t, qc + l.c)
    # ---------------------------------------------------------- state
    def facts(self, S):
        if S.facts is None: S.facts = Facts()
        return S.facts
    def allowed(self, S, var):
        s = self.facts(S).sets.get(var.id)
        if s is None:
            s = self.full.get((var.lo, var.hi))
            if s is None: s = self.full[(var.lo, var.hi)] = frozenset(range(var.lo, var.hi + 1))
        return s
    def vals(self, S, b):
        return {b.tab[i - b.var.lo] for i in self.allowed(S, b.var)} - {None}
    def toV(self, S, x):
        t = type(x)
        if t is int: return V(self.const(x), x, x)
        if t is V:
            f = self.facts(S); l = x.l
            ch = None
            for a in l.nb:
                k = f.fixed.get(a.id)
                if k is None and a.one is not None and a.one.id in f.sets:
                    ck = (a.id, f.sets[a.one.id]); k = self.tvc.get(ck, 0)
                    if k == 0 and ck not in self.tvc:
                        vs = {self.ev_atom(a, {a.one.id: i}, {}) for i in f.sets[a.one.id]}
                        k = self.tvc[ck] = vs.pop() if len(vs) == 1 else None
                if k is not None: ch = ch or {}; ch[a.id] = k
            if f.fixed:
                for k in l.t:
                    if k in f.fixed: ch = ch or {}; ch[k] = f.fixed[k]
            if ch:
                l = self.mklin({k: c for k, c in l.t.items() if k not in ch}, l.c + sum(l.t[k] * v for k, v in ch.items()))
                return V(l, max(x.lo, l.lo), min(x.hi, l.hi))
            return x
        if t is B:
            al = self.allowed(S, x.var); lo_ = x.var.lo; vs = [(i, x.tab[i - lo_]) for i in al if x.tab[i - lo_] is not None]
            if not vs: raise Unsupported("empty value")
            mn = min(v for i, v in vs); mx = max(v for i, v in vs)
            if mn == mx: return V(self.const(mn), mn, mn)
            i0, v0 = vs[0]; k = v0 - i0
            base = None
            if all(v - i == k for i, v in vs):
                if x.var.kind == "byte":
                    a = self.atom(("b", x.var.id), "byte", var=x.var, lo=0, hi=255, one=x.var); base = self.lin_atom(a)
                else: base = x.var.lin
                return V(self.mklin(base.t, base.c + k), mn, mx)
            als = set(al)
            for a in self.gat.get(x.var.id, ()):       # an existing atom that agrees on the values still possible
                if all(a.tab[i - lo_] == v for i, v in vs): return V(self.lin_atom(a), mn, mx)
            tab = tuple(x.tab[i - lo_] if i in als else None for i in range(lo_, x.var.hi + 1))
            a = self.atom(("g", x.var.id, tab), "g", var=x.var, tab=tab, lo=mn, hi=mx, one=x.var if x.var.kind == "byte" else x.var.lin.one)
            self.gat.setdefault(x.var.id, []).append(a)
            return V(self.lin_atom(a), mn, mx)
        if t is Cond: raise Split([(x, True), (x, False)])
        if t is Ptr: raise Unsupported("pointer arithmetic")
        raise Unsupported("value")
    def single(self, S, x):
        """the byte variable x depends on alone, if any"""
        if type(x) is B: return x.var
        if type(x) is V: return x.l.one
        return None
    def ev_lin(self, l, env, memo):
        r = l.c; at = self.atoms
        for k, c in l.t.items():
            a = at[k]
            r += c * (env[a.var.id] if a.kind == "byte" else self.ev_atom(a, env, memo))
        return r
    def ev_var(self, v, env, memo):
        return env[v.id] if v.kind == "byte" else self.ev_lin(v.lin, env, memo)
    def ev_atom(self, a, env, memo):
        if a.kind == "byte": return env[a.var.id]
        r = memo.get(a.id)
        if r is None:
            if a.kind == "F": r = self.ev_lin(a.lin, env, memo) // a.m
            else:
                i = self.ev_var(a.var, env, memo) - a.var.lo
                r = a.tab[i] if 0 <= i < len(a.tab) else None
                if r is None: r = 0
            memo[a.id] = r
        return r
    def ev(self, x, env, memo=None):
        if memo is None: memo = {}
        if type(x) is int: return x
        if type(x) is V: return self.ev_lin(x.l, env, memo)
        if type(x) is B:
            r = x.tab[self.ev_var(x.var, env, memo) - x.var.lo]
            return 0 if r is None else r
        if type(x) is Cond:
            v = self.ev_lin(x.lin, env, memo)
            return (v == 0 if x.kind == "eq" else v < 0 if x.kind == "lt" else v in x.vals) == x.pos
        raise Unsupported("ev")
    def tabulate(self, S, w, fn, *xs):
        """fn over values that all depend on one variable -> table"""
        var = None
        for x in xs:
            if type(x) in (V, B):
                v = self.single(S, x)
                if v is None or (var is not None and v is not var): return None
                var = v
            elif type(x) is not int: return None
        if var is None: return None
        al = self.allowed(S, var); tab = [None] * (var.hi - var.lo + 1)
        if var.kind == "lin":
            if not all(type(x) in (B, int) for x in xs): return None
            for i in al: tab[i - var.lo] = fn(*[x if type(x) is int else x.tab[i - var.lo] for x in xs])
        else:
            for i in al:
                env = {var.id: i}; m = {}
                tab[i] = fn(*[self.ev(x, env, m) for x in xs])
        vs = set(tab) - {None}
        if len(vs) == 1: return vs.pop()
        return B(var, tuple(tab), w)
    # ---------------------------------------------------------- arithmetic
    def feasible(self, S, c):
        """can c hold on this path? (remembers nothing)"""
        q = self.quick(S, c)
        if q is not None: return q
        f = self.facts(S)
        if f.model and self.ev(c, f.model): self.stats["model_hits"] += 1; return True
        if type(c) is Cond and len(c.lin.nb) > 1:
            c = self.settle(S, c); q = self.quick(S, c)
            if q is not None: return q
        return self.solve(S, [c]) is not None
    def wrap(self, S, l, lo, hi, w):
        lo, hi = max(lo, l.lo), min(hi, l.hi); M = 1 << w
        if lo == hi: return lo & MASK[w]
        if lo >= 0 and hi < M: return V(l, lo, hi)
        if lo >= M and hi < 2 * M: return V(self.mklin(l.t, l.c - M), lo - M, hi - M)
        if hi < 0 and lo >= -M: return V(self.mklin(l.t, l.c + M), lo + M, hi + M)
        # may it really leave the range?
        if lo < 0 and not self.feasible(S, Cond("lt", l)): lo = 0
        if hi >= M and not self.feasible(S, Cond("lt", self.mklin(l.t, l.c - M)).neg()): hi = M - 1
        if lo >= 0 and hi < M: return V(l, lo, hi)
        if lo >= M and hi < 2 * M: return V(self.mklin(l.t, l.c - M), lo - M, hi - M)
        q = self.flr(l, M)
        r = self.lincomb(l, 1, q, -M)
        return V(r, max(0, r.lo), min(M - 1, r.hi))
    def signed(self, S, x, w):
        """(lin, lo, hi) of the signed reading"""
        H = 1 << (w - 1)
        if x.hi < H: return x.l, x.lo, x.hi
        if x.lo >= H: return self.mklin(x.l.t, x.l.c - 2 * H), x.lo - 2 * H, x.hi - 2 * H
        if not self.feasible(S, Cond("lt", self.mklin(x.l.t, x.l.c - H)).neg()): return x.l, x.lo, H - 1
        q = self.flr(x.l, H)
        return self.lincomb(x.l, 1, q, -2 * H), -H, H - 1
    def ovf(self, S, l, lo, hi, w):
        H = 1 << (w - 1); lo, hi = max(lo, l.lo), min(hi, l.hi)
        for c, poss in ((Cond("lt", self.mklin(l.t, l.c - H)).neg(), hi >= H), (Cond("lt", self.mklin(l.t, l.c + H)), lo < -H)):
            if poss and self.feasible(S, c):
                self.assume(S, c, True); raise Bug("signed overflow in " + self.vm.where(S))
    def binop(self, S, op, w, a, b, nsw=False):
        if type(a) is int and type(b) is int: return conc_bin(op, w, a, b, nsw, self.vm, S)
        if type(a) is Ptr or type(b) is Ptr: raise Unsupported("pointer arithmetic")
        if type(a) is Cond or type(b) is Cond:
            if w == 1 and op == "xor" and type(b) is int: return a.neg() if b else a
            c = a if type(a) is Cond else b
            raise Split([(c, True), (c, False)])
        if op in ("add", "mul", "and", "or", "xor") and type(a) is int: a, b = b, a
        bi = type(b) is int
        if op in ("and", "or", "xor", "shl", "lshr", "ashr") and (type(a) is B or type(b) is B or op in ("or", "xor")) and not (op in ("shl", "lshr") and bi and type(a) is not B):
            try:
                r = self.tabulate(S, w, lambda x, y: conc_bin(op, w, x, y, False, self.vm, S), a, b)
                if r is not None: return r
            except Bug: pass
        x = self.toV(S, a); y = self.toV(S, b)
        if x.lo == x.hi and y.lo == y.hi: return conc_bin(op, w, x.lo, y.lo, nsw, self.vm, S)
        yc = y.lo if y.lo == y.hi else None
        if op in ("add", "sub"):
            s = 1 if op == "add" else -1
            if nsw:
                xl, x0, x1 = self.signed(S, x, w); yl, y0, y1 = self.signed(S, y, w)
                l = self.lincomb(xl, 1, yl, s); lo, hi = (x0 + y0, x1 + y1) if s > 0 else (x0 - y1, x1 - y0)
                if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1): self.ovf(S, l, lo, hi, w)
                return self.wrap(S, l, lo, hi, w)
            l = self.lincomb(x.l, 1, y.l, s); lo, hi = (x.lo + y.lo, x.hi + y.hi) if s > 0 else (x.lo - y.hi, x.hi - y.lo)
            return self.wrap(S, l, lo, hi, w)
        if op == "mul":
            if yc is None:
                if x.lo == x.hi: x, y, yc = y, x, x.lo
                else: raise Unsupported("product of two symbolic values")
            if nsw:
                k = sgn(yc, w); xl, x0, x1 = self.signed(S, x, w); l = self.lincomb(xl, k, xl, 0); lo, hi = sorted((x0 * k, x1 * k))
                if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1): self.ovf(S, l, lo, hi, w)
                return self.wrap(S, l, lo, hi, w)
            return self.wrap(S, self.lincomb(x.l, yc, x.l, 0), x.lo * yc, x.hi * yc, w)
        if yc is None: raise Unsupported("symbolic second operand of " + op)
        if op in ("sdiv", "srem"):
            if sgn(yc, w) <= 0: raise Unsupported("signed division by a negative number")
            xl, x0, x1 = self.signed(S, x, w)
            if x0 < 0:
                c = Cond("lt", xl)
                if self.feasible(S, c):
                    n = V(self.lincomb(xl, -1, xl, 0), max(-x1, 0), -x0)      # split on the sign
                    if not self.feasible(S, c.neg()): raise Unsupported("division of a negative number")
                    raise Split([(c, True), (c, False)])
            x = V(xl, max(x0, 0), x1); op = "u" + op[1:]
        if op == "udiv":
            if yc == 0: raise Bug("division by zero in " + self.vm.where(S))
            return self.mkv(self.flr(x.l, yc), x.lo // yc, x.hi // yc)
        if op == "urem":
            if yc == 0: raise Bug("division by zero in " + self.vm.where(S))
            if x.hi < yc: return x
            return self.mkv(self.lincomb(x.l, 1, self.flr(x.l, yc), -yc), 0, yc - 1)
        if op == "shl": return self.wrap(S, self.lincomb(x.l, 1 << yc, x.l, 0), x.lo << yc, x.hi << yc, w)
        if op == "lshr": return self.mkv(self.flr(x.l, 1 << yc), x.lo >> yc, x.hi >> yc)
        if op == "ashr":
            xl, x0, x1 = self.signed(S, x, w)
            return self.wrap(S, self.flr(xl, 1 << yc), x0 >> yc, x1 >> yc, w)
        if op == "and":
            r = 0; k = 0; m = yc
            while m >> k:
                if not m >> k & 1: k += 1; continue
                n = k
                while m >> n & 1: n += 1
                t = self.binop(S, "lshr", w, x, k) if k else x
                if type(t) is not int: t = self.binop(S, "urem", w, t, 1 << (n - k)) if n - k < w else t
                else: t &= MASK[n - k]
                r = self.binop(S, "add", w, self.binop(S, "shl", w, t, k) if k else t, r); k = n
            return r
        if op == "or" or op == "xor":
            for p, q in ((x, y), (y, x)):
                k = q.hi.bit_length()
                if p.l.c % (1 << k) == 0 and all(c % (1 << k) == 0 for c in p.l.t.values()): return self.wrap(S, self.lincomb(p.l, 1, q.l, 1), p.lo + q.lo, p.hi + q.hi, w)
            if op == "xor" and yc == MASK[w]: return self.mkv(self.lincomb(self.const(yc), 1, x.l, -1), yc - x.hi, yc - x.lo)
        raise Unsupported("operation " + op + " on linear values")
    def mkv(self, l, lo, hi):
        lo, hi = max(lo, l.lo), min(hi, l.hi)
        return lo if lo == hi else V(l, lo, hi)
    def cast(self, S, k, w1, w2, x):
        if type(x) is int: return (sgn(x, w1) if k == "sext" else x) & MASK[w2]
        if type(x) is Cond:
            raise Split([(x, True), (x, False)])
        if type(x) is B:
            f = (lambda v: v & MASK[w2]) if k == "trunc" else (lambda v: sgn(v, w1) & MASK[w2]) if k == "sext" else (lambda v: v)
            return B(x.var, tuple(None if v is None else f(v) for v in x.tab), w2)
        x = self.toV(S, x)
        if x.lo == x.hi: return self.cast(S, k, w1, w2, x.lo)
        if k == "zext": return x
        if k == "trunc": return self.wrap(S, x.l, x.lo, x.hi, w2)
        l, lo, hi = self.signed(S, x, w1)
        return self.wrap(S, l, lo, hi, w2)
    def byte(self, v, i, n):
        if type(v) is int: return v >> (8 * i) & 255
        if type(v) is B: return B(v.var, tuple(None if t is None else t >> (8 * i) & 255 for t in v.tab), 8)
        S = self.vm_state
        t = self.binop(None, "lshr", 8 * n, v, 8 * i) if i else v
        if type(t) is int: return t & 255
        return self.nowrap_rem(t, 256)
    def nowrap_rem(self, x, m):
        if x.hi < m: return x
        return self.mkv(self.lincomb(x.l, 1, self.flr(x.l, m), -m), 0, m - 1)
    def concat(self, bs):
        r = 0
        S = self.vm_state
        for i, b in enumerate(bs): r = self.binop(S, "add", 8 * len(bs), self.binop(S, "shl", 8 * len(bs), b, 8 * i), r)
        return r
    # ---------------------------------------------------------- conditions
    def icmp(self, S, pred, w, a, b):
        if type(a) is Cond or type(b) is Cond:
            if type(a) is int: a, b = b, a
            if type(b) is int and pred in ("eq", "ne"): return a if (pred == "eq") == (b == 1) else a.neg()
            c = a if type(a) is Cond else b
            raise Split([(c, True), (c, False)])
        r = self.tabulate(S, 1, lambda x, y: conc_cmp(pred, w, x, y), a, b)
        if r is not None: return r
        x = self.toV(S, a); y = self.toV(S, b)
        if pred[0] == "s": xl, x0, x1 = self.signed(S, x, w); yl, y0, y1 = self.signed(S, y, w)
        else: xl, x0, x1 = x.l, x.lo, x.hi; yl, y0, y1 = y.l, y.lo, y.hi
        k = pred[-2:] if pred not in ("eq", "ne") else pred
        if k in ("gt", "le"): xl, x0, x1, yl, y0, y1 = yl, y0, y1, xl, x0, x1; k = {"gt": "lt", "le": "ge"}[k]
        d = self.lincomb(xl, 1, yl, -1); lo, hi = max(x0 - y1, d.lo), min(x1 - y0, d.hi)
        if k in ("lt", "ge"):
            if hi < 0: return int(k == "lt")
            if lo >= 0: return int(k == "ge")
            c = Cond("lt", d)
            return c if k == "lt" else c.neg()
        if lo > 0 or hi < 0: return int(k == "ne")
        if lo == hi == 0: return int(k == "eq")
        if lo == 0: c = Cond("lt", self.mklin(d.t, d.c - 1))       # d >= 0: d == 0 iff d < 1
        elif hi == 0: c = Cond("lt", self.lincomb(self.const(-1), 1, d, -1))
        else: c = Cond("eq", d)
        return c if k == "eq" else c.neg()
    def select(self, S, w, c, a, b):
        if w == 1:
            if type(c) is B and all(type(x) in (int, B) for x in (a, b)):
                r = self.tabulate(S, 1, lambda p, q, r: q if p else r, c, a, b)
                if r is not None: return r
            if type(c) is Cond and type(a) is int and type(b) is int: return c if a else c.neg()
        t, e = self.decide(S, c)
        if t and e: raise Split([(c, True), (c, False)])
        return a if t else b
    def undef(self, S, o, f):
        self.und = getattr(self, "und", 0) + 1
        v = self.sym_byte("undef%d" % self.und); self.facts(S).model = dict(self.facts(S).model); self.facts(S).model[v.var.id] = 0x5a
        self.undefs.add(v.var.id) if hasattr(self, "undefs") else None
        return v
    def range(self, S, v):
        if type(v) is B:
            vs = [sgn(x, 64) for x in self.vals(S, v)]; return min(vs), max(vs)
        x = self.toV(S, v)
        if x.hi < 1 << 63: return x.lo, x.hi
        l, lo, hi = self.signed(S, x, 64); return lo, hi
    def feasible_outside(self, S, v, lo, hi):
        if type(v) is B:
            c = B(v.var, tuple(None if x is None else int(not (lo <= sgn(x, 64) <= hi)) for x in v.tab), 1)
            if not self.feasible(S, c): return False
            self.assume(S, c, True); return True
        l, a, b = self.signed(S, self.toV(S, v), 64)
        for c in (Cond("lt", self.mklin(l.t, l.c - lo)), Cond("lt", self.mklin(l.t, l.c - hi - 1)).neg()):
            if self.feasible(S, c): self.assume(S, c, True); return True
        return False
    def lookup(self, S, tab, lo, idx, n):
        if any(type(t) is not int for t in tab): return None
        if type(idx) is V:
            x = self.toV(S, idx)
            if x.lo == x.hi: return tab[x.lo - lo]
            if x.l.one is not None: idx = self.tabulate(S, 64, lambda v: v, x)
            else:
                if x.hi - x.lo > 300: raise Unsupported("large table")
                v = self.lin_var(x.l, x.lo, x.hi); idx = B(v, tuple(range(x.lo, x.hi + 1)), 64)
            if type(idx) is int: return tab[idx - lo]
        r = B(idx.var, tuple(None if i is None or not 0 <= sgn(i, 64) - lo < len(tab) else tab[sgn(i, 64) - lo] for i in idx.tab), 8 * n)
        vs = self.vals(S, r)
        return vs.pop() if len(vs) == 1 else r
    def store_sym(self, S, p, v, n):
        k = self.concretise(S, p.f)
        return self.vm.store(S, Ptr(p.o, sgn(k & MASK[64], 64)), v, n)
    def concretise(self, S, v):
        if type(v) is B:
            vs = sorted(self.vals(S, v))
            if len(vs) == 1: return vs[0]
            if len(vs) > 64: raise Unsupported("symbolic size")
            k = vs[0]
        else:
            x = self.toV(S, v)
            if x.lo == x.hi: return x.lo
            if x.hi - x.lo > 64: raise Unsupported("symbolic size")
            k = x.lo; v = x
        c = self.icmp(S, "eq", 64, v, k)
        if type(c) is int:
            raise Unsupported("symbolic size")
        t, e = self.decide(S, c)
        if t and not e: return k
        if e and not t and type(v) is V:
            for k in range(v.lo + 1, v.hi + 1):
                c = self.icmp(S, "eq", 64, v, k)
                if type(c) is int:
                    if c: return k
                    continue
                t, e = self.decide(S, c)
                if t and not e: return k
                if t and e: break
        raise Split([(c, True), (c, False)])
    def quick(self, S, c):
        """truth by intervals / tables alone, None when open"""
        if type(c) is int: return bool(c)
        if type(c) is B:
            vs = self.vals(S, c)
            if vs == {0}: return False
            if c.var.kind == "byte" and c.var.id not in self.facts(S).linvars: return bool(vs - {0})
            if vs == {1}: return True
            return None
        l = c.lin
        if c.kind == "lt":
            if l.hi < 0: return c.pos
            if l.lo >= 0: return not c.pos
        elif c.kind == "eq":
            if l.lo > 0 or l.hi < 0: return not c.pos
            if l.lo == l.hi == 0: return c.pos
        return None
    def decide(self, S, c):
        if type(c) is int: return bool(c), not c
        f = self.facts(S)
        self.last = None
        if type(c) is B:
            vs = self.vals(S, c); t, e = bool(vs - {0}), 0 in vs
            if not (t and e): return t, e
            if c.var.kind == "byte" and c.var.id not in f.linvars: return True, True
            neg = B(c.var, tuple(None if v is None else 1 - v for v in c.tab), 1)
        else:
            if type(c) is Cond:
                v = self.toV(S, V(c.lin, c.lin.lo, c.lin.hi))
                if v.l is not c.lin: c = Cond(c.kind, v.l, c.pos, c.vals)
            q = self.quick(S, c)
            if q is not None: return q, not q
            if len(c.lin.nb) > 1:
                c2 = self.settle(S, c)
                if c2 is not c:
                    c = c2; q = self.quick(S, c)
                    if q is not None: return q, not q
            neg = c.neg()
        res = []
        now = bool(self.ev(c, f.model)) if f.model else None
        for want, cc in ((True, c), (False, neg)):
            if now is want: self.stats["model_hits"] += 1; res.append(True); continue
            m = self.solve(S, [cc])
            if m is not None:
                self.last = (self.last or {}); self.last[want] = m
            res.append(m is not None)
        return tuple(res)
    def assume(self, S, c, truth):
        f = self.facts(S)
        if type(c) is int: return
        if type(c) is B:
            s = frozenset(i for i in self.allowed(S, c.var) if c.tab[i - c.var.lo] is not None and bool(c.tab[i - c.var.lo]) == truth)
            f.sets[c.var.id] = s
            if c.var.kind == "byte":
                if f.model and f.model.get(c.var.id) not in s:
                    m = dict(f.model); m[c.var.id] = min(s) if s else 0
                    if c.var.id in f.linvars and not all(self.ev(x, m) for x in f.cons):
                        r = self.last.get(truth) if self.last else None
                        m = r or self.solve(S, []) or m
                    f.model = m
            else:
                cc = Cond("in", c.var.lin, True, s); f.cons.append(cc); self.note_vars(f, c.var.lin)
                if f.model and not self.ev(cc, f.model): f.model = (self.last or {}).get(truth) or self.solve(S, []) or f.model
            return
        if not truth: c = c.neg()
        f.cons.append(c); self.note_vars(f, c.lin)
        # equality facts fix atoms: L < 1 / L == 0 with nonnegative parts
        l = c.lin
        if c.pos and (c.kind == "eq" or c.kind == "lt"):
            l2 = l if c.kind == "eq" else self.mklin(l.t, l.c + 1)     # l2 <= 0
            at = self.atoms
            if l2.c == 0 and l2.t and all(v > 0 and at[k].lo >= 0 for k, v in l2.t.items()):
                for k in l2.t: f.fixed[k] = 0
            elif c.kind == "eq" and len(l2.t) == 1:
                (k, v), = l2.t.items()
                if l2.c % v == 0: f.fixed[k] = -l2.c // v
        if f.model and not self.ev(c, f.model):
            f.model = (self.last or {}).get(truth) or self.solve(S, []) or f.model
    def note_vars(self, f, lin, seen=None):
        for k in lin.t:
            a = self.atoms[k]
            if a.kind == "F": self.note_vars(f, a.lin)
            elif a.var.kind == "byte": f.linvars.add(a.var.id)
            else: self.note_vars(f, a.var.lin)
    # ---------------------------------------------------------- z3
    def zint(self, cx, v):
        """z3 variable of a byte"""
        if v.id not in cx["b"]: cx["b"][v.id] = z3.Int("b%d" % v.id)
        return cx["b"][v.id]
    def zlin(self, cx, l):
        ts = [c * self.zatom(cx, self.atoms[k]) if c != 1 else self.zatom(cx, self.atoms[k]) for k, c in l.t.items()]
        if not ts: return z3.IntVal(l.c)
        r = z3.Sum(ts) if len(ts) > 1 else ts[0]
        return r + l.c if l.c else r
    def zatom(self, cx, a):
        z = cx["a"].get(a.id)
        if z is not None: return z
        if a.kind == "byte": z = self.zint(cx, a.var)
        elif a.kind == "F":
            R = self.zlin(cx, a.lin); z = z3.Int("f%d" % a.id); cx["s"].append(z3.And(a.m * z <= R, R <= a.m * z + (a.m - 1), z >= a.lo, z <= a.hi))
        else:
            z = z3.Int("g%d" % a.id); cx["g"].setdefault(a.var.id, []).append((a, z))
        cx["a"][a.id] = z
        return z
    def zcond(self, cx, c):
        if type(c) is B:
            vs = [i for i in range(c.var.lo, c.var.hi + 1) if c.tab[i - c.var.lo]]
            e = self.zint(cx, c.var) if c.var.kind == "byte" else self.zlin(cx, c.var.lin)
            return zin(e, vs)
        l = c.lin
        if c.kind == "in": r = zin(self.zlin(cx, l), c.vals)
        elif c.kind == "lt":
            r = None
            if len(l.t) == 1:
                (k, v), = l.t.items(); a = self.atoms[k]
                if a.kind == "F" and v > 0:                 # v*q + c < 0  <=>  q < ceil(-c/v)  <=>  R < m*ceil(-c/v)
                    r = self.zlin(cx, a.lin) < a.m * (-(l.c // v))
                elif a.kind == "F":                        # -|v|*q + c < 0  <=>  q > c/|v|  <=>  q >= floor(c/|v|)+1
                    r = self.zlin(cx, a.lin) >= a.m * (l.c // -v + 1)
            if r is None: r = self.zlin(cx, l) < 0
        else: r = self.zlin(cx, l) == 0
        return r if c.pos else z3.Not(r)
    # ---------------------------------------------------------- thresholds on positional numbers
    def bounds_of(self, c):
        """the condition as lo <= R <= hi over a floor-free form R (None: not of that shape)"""
        if type(c) is B:
            if c.var.kind == "byte": return None
            l = c.var.lin; vs = [i for i in range(c.var.lo, c.var.hi + 1) if c.tab[i - c.var.lo]]; kind, pos = "in", True
        else: l, kind, pos, vs = c.lin, c.kind, c.pos, c.vals
        lo, hi = l.lo, l.hi
        if kind == "lt":
            if pos: hi = min(hi, -1)
            else: lo = max(lo, 0)
        else:
            vs = sorted(v for v in ((0,) if kind == "eq" else vs) if lo <= v <= hi)
            if not vs: return (l, 1, 0) if pos else (l, lo, hi)
            if vs[-1] - vs[0] != len(vs) - 1: return None
            if pos: lo, hi = vs[0], vs[-1]
            elif vs[0] == lo: lo = vs[-1] + 1
            elif vs[-1] == hi: hi = vs[0] - 1
            else: return None
        while True:
            F = [k for k in l.t if self.atoms[k].kind == "F"]
            if not F: break
            if len(F) > 1: return None
            a = self.atoms[F[0]]; v = l.t[F[0]]; lo, hi = lo - l.c, hi - l.c
            if any(c % v for c in l.t.values()): return None
            if v < 0: lo, hi = -hi, -lo
            lo, hi = -(-lo // abs(v)), hi // abs(v)          # lo <= F + rest/v <= hi
            l = self.lincomb(self.mklin({k: c // v for k, c in l.t.items() if k != a.id}, 0), a.m, a.lin, 1); lo, hi = lo * a.m, hi * a.m + a.m - 1
        return l, max(lo, l.lo), min(hi, l.hi)
    def fbounds(self, want, L, U):
        at, g, c, a = want
        if any(self.atoms[k].kind == "F" for k in a.lin.t): return NotImplemented
        return (g * L + c) // a.m, (g * U + c) // a.m
    def settle(self, S, c):
        """floor terms of c whose value the path condition determines are fixed"""
        f = self.facts(S); again = False
        for k in c.lin.t:
            a = self.atoms[k]
            if a.kind != "F" or k in f.fixed: continue
            r = self.ladder(S, f, [], a)
            if r is None or r is NotImplemented: continue
            lo, hi = max(r[0], a.lo), min(r[1], a.hi)
            if lo == hi: f.fixed[k] = lo; again = True
        if again:
            v = self.toV(S, V(c.lin, c.lin.lo, c.lin.hi)); c = Cond(c.kind, v.l, c.pos, c.vals)
        return c
    def ladder(self, S, f, extra, want=None):
        """conditions that bound prefixes of positional numbers (distinct atoms, each in a
        range smaller than its base) decided exactly; NotImplemented when not of that form"""
        from math import gcd
        cs = []; vmap = {}
        for c in list(f.cons) + list(extra):
            if type(c) is B and c.var.kind == "byte":
                return NotImplemented
            b = self.bounds_of(c)
            if b is None: return NotImplemented
            l, lo, hi = b
            if lo > hi: return None
            lo -= l.c; hi -= l.c
            if not l.t:
                if not lo <= 0 <= hi: return None
                continue
            at = []
            for k, v in l.t.items():
                a = self.atoms[k]
                if a.kind == "F" or a.var.kind != "byte": return NotImplemented
                if vmap.setdefault(a.var.id, k) != k: return NotImplemented
                at.append((v, k))
            if all(v < 0 for v, k in at): at = [(-v, k) for v, k in at]; lo, hi = -hi, -lo
            elif not all(v > 0 for v, k in at): return NotImplemented
            g = 0
            for v, k in at: g = gcd(g, v)
            at = tuple(sorted(((v // g, k) for v, k in at), reverse=True))
            cs.append((at, -(-lo // g), hi // g))
        if want is not None:
            b = self.bounds_of(Cond("lt", self.mklin({want.id: 1}, -want.hi - 1)))
            if b is None or not b[0].t: return NotImplemented
            at = []
            for k, v in b[0].t.items():
                a = self.atoms[k]
                if a.kind == "F" or a.var.kind != "byte" or vmap.setdefault(a.var.id, k) != k or v <= 0: return NotImplemented
                at.append((v, k))
            g = 0
            for v, k in at: g = gcd(g, v)
            at = tuple(sorted(((v // g, k) for v, k in at), reverse=True))
            want = (at, g, b[0].c, want); cs.append((at, b[0].lo // g - 1, b[0].hi // g + 1))
        chains = []
        cs.sort(key=lambda c: -len(c[0]))
        for at, lo, hi in cs:
            ks = {k for v, k in at}
            for ch in chains:
                m = ch["at"]; n = len(at)
                if tuple(k for v, k in m[:n]) == tuple(k for v, k in at) and all(m[i][0] * at[-1][0] == at[i][0] * m[n - 1][0] for i in range(n)):
                    ch["b"].append((n - 1, lo, hi)); break
                if ks & ch["ks"]: return NotImplemented
            else: chains.append({"at": at, "ks": ks, "b": [(len(at) - 1, lo, hi)]})
        out = dict(f.model)
        for ch in chains:
            m = ch["at"]; n = len(m)
            if m[-1][0] != 1: return NotImplemented
            rg = []
            for v, k in m:
                a = self.atoms[k]; al = f.sets.get(a.var.id)
                if al is None: al = range(256)
                vs = {i if a.kind == "byte" else a.tab[i] for i in al} - {None}
                if not vs: return None
                if max(vs) - min(vs) != len(vs) - 1: return NotImplemented
                rg.append((min(vs), max(vs)))
            rho = [0] * n
            for i in range(1, n):
                if m[i - 1][0] % m[i][0]: return NotImplemented
                rho[i] = m[i - 1][0] // m[i][0]
                if rg[i][1] - rg[i][0] >= rho[i]: return NotImplemented
            INF = None
            L = [INF] * n; U = [INF] * n
            lo = hi = None; pl, ph = 0, 0
            for i in range(n):
                pl, ph = pl * rho[i] + rg[i][0], ph * rho[i] + rg[i][1]
                L[i], U[i] = pl, ph
            for i, lo, hi in ch["b"]: L[i] = max(L[i], lo); U[i] = min(U[i], hi)
            for i in range(n - 1, 0, -1):
                L[i - 1] = max(L[i - 1], -(-(L[i] - rg[i][1]) // rho[i])); U[i - 1] = min(U[i - 1], (U[i] - rg[i][0]) // rho[i])
            if want is not None:
                if want[0] != m[:len(want[0])] and tuple(k for v, k in want[0]) != tuple(k for v, k in m[:len(want[0])]): continue
                j = len(want[0]) - 1
                for i in range(1, j + 1): L[i] = max(L[i], L[i - 1] * rho[i] + rg[i][0]); U[i] = min(U[i], U[i - 1] * rho[i] + rg[i][1])
                # want = floor((g*Q + c) / m) through the nesting of bounds_of: find the atom's own bounds
                r = self.fbounds(want, L[j], U[j])
                if r is not NotImplemented and r[0] == r[1]: self.confirm((j, L[j], U[j]), (m, rho, rg, ch["b"]))
                return r
            # search: a value strictly inside its bounds extends to the end; otherwise follow the bounds
            cand = [((), 0)]; sol = None
            for i in range(n):
                nx = []
                for ds, q in cand:
                    a, b = max(L[i], q * rho[i] + rg[i][0]), min(U[i], q * rho[i] + rg[i][1])
                    if a > b: continue
                    ia, ib = max(a, L[i] + 1), min(b, U[i] - 1)
                    if ia <= ib:
                        x = (ia + ib) // 2; sol = ds + (x - q * rho[i],); break
                    for x in sorted({a, b}): nx.append((ds + (x - q * rho[i],), x))
                if sol is not None: break
                cand = nx
                if not cand:
                    self.confirm(None, (m, rho, rg, ch["b"])); return None
            if sol is None: sol = cand[0][0]
            sol = list(sol) + [(lo + hi) // 2 for lo, hi in rg[len(sol):]]
            for (v, k), x in zip(m, sol):
                a = self.atoms[k]; al = f.sets.get(a.var.id) or range(256)
                out[a.var.id] = x if a.kind == "byte" else next(i for i in sorted(al) if a.tab[i] == x)
        if want is not None: return NotImplemented
        if any(not self.ev(c, out) for c in list(f.cons) + list(extra)): raise Unsupported("internal: model of positional bounds is wrong")
        return out or {"none": 0}
    def lvars(self, l, acc):
        for k in l.t:
            a = self.atoms[k]
            if a.kind == "F": self.lvars(a.lin, acc)
            elif a.var.kind == "byte": acc.append((a.var.id, a.kind))
            else: self.lvars(a.var.lin, acc); acc.append((a.var.id, "lin"))
        return acc
    def elim(self, S, f, extra, ms):
        """x == rest / x != rest with a free byte x used nowhere else: solved for x afterwards"""
        cs = list(f.cons) + list(extra)
        if not any(type(c) is Cond and c.kind == "eq" for c in cs): return NotImplemented
        occ = {}
        for i, c in enumerate(cs):
            for v, k in set(self.lvars(c.lin if type(c) is Cond else c.var.lin, [])) if type(c) is Cond or c.var.kind == "lin" else [(c.var.id, "byte")]: occ.setdefault(v, []).append(i)
        rest = list(range(len(cs))); out = []
        for i, c in enumerate(cs):
            if type(c) is not Cond or c.kind != "eq": continue
            for k, v in c.lin.t.items():
                a = self.atoms[k]
                if a.kind == "byte" and v in (1, -1) and occ[a.var.id] == [i] and len(f.sets.get(a.var.id) or range(256)) == 256 and k not in f.fixed:
                    o = self.mklin({x: -y * v for x, y in c.lin.t.items() if x != k}, -v * c.lin.c)     # x == o
                    if c.pos and not (0 <= o.lo and o.hi <= 255): continue
                    if [x for x, _ in self.lvars(c.lin, [])].count(a.var.id) != 1: continue
                    rest.remove(i); out.append((a.var.id, o, c.pos)); break
        if not out: return NotImplemented
        g = f.copy(); g.cons = [cs[i] for i in rest]
        m = self.solve_in(S, g, ms)
        if m is None or "unknown" in m: return m
        m = dict(m)
        for vid, o, pos in out:
            for x, _ in self.lvars(o, []): m.setdefault(x, 0)
            x = self.ev_lin(o, m, {})
            m[vid] = x if pos else (0 if x else 1)
        if any(not self.ev(c, m) for c in cs): raise Unsupported("internal: elimination")
        return m
    def solve_in(self, S, g, ms):
        if not g.cons: return dict(g.model) or {"none": 0}
        old = S.facts; S.facts = g
        try: return self.solve(S, [], ms)
        finally: S.facts = old
    def confirm(self, conds, ladder):
        """z3's verdict on bounds of positional numbers found contradictory: (chain, ranges, bounds)"""
        t0 = time.time(); s = z3.Solver(); s.set("timeout", 5000)
        m, rho, rg, bd = ladder; q = None; qs = []
        for i in range(len(m)):
            n = z3.Int("q%d" % i)
            if i == 0: s.add(n >= rg[0][0], n <= rg[0][1])
            else:
                d = n - rho[i] * q
                s.add(d >= rg[i][0], d <= rg[i][1])
            qs.append(n); q = n
        for i, lo, hi in bd: s.add(qs[i] >= lo, qs[i] <= hi)
        if conds is not None: i, lo, hi = conds; s.add(z3.Or(qs[i] < lo, qs[i] > hi))
        r = s.check(); self.stats["z3_s"] += time.time() - t0; self.stats["queries"] += 1
        if r == z3.sat: raise Unsupported("internal: positional bounds disagree with z3")
        if r == z3.unknown: self.stats["unconfirmed"] = self.stats.get("unconfirmed", 0) + 1
        return True
    def solve(self, S, extra, ms=20000):
        """a model of the path condition with `extra`; None when there is none (or nothing found in time: counted, and treated as possible)"""
        f = self.facts(S); t0 = time.time()
        r = self.elim(S, f, extra, ms)
        if r is not NotImplemented: return r
        r = self.ladder(S, f, extra)
        if r is not NotImplemented: self.stats["ladder"] = self.stats.get("ladder", 0) + 1; return r
        cx = {"b": {}, "a": {}, "s": [], "g": {}}
        cs = [self.zcond(cx, c) for c in f.cons] + [self.zcond(cx, c) for c in extra]
        s = z3.Solver(); s.set("timeout", ms)
        s.add(cs + cx["s"])
        seen = set()
        pend = list(cx["g"].items())
        for vid, gs in pend:
            var = self.vars[vid]
            al = [i for i in (f.sets.get(vid) or range(var.lo, var.hi + 1))]
            if var.kind == "byte" and len(gs) == 1 and vid not in cx["b"]:
                a, z = gs[0]; s.add(zin(z, {a.tab[i] for i in al} - {None}))
            else:
                n0 = len(cx["s"])
                e = self.zint(cx, var) if var.kind == "byte" else self.zlin(cx, var.lin)
                s.add(cx["s"][n0:])
                for a, z in gs:
                    s.add(z3.Or([z3.And(e == i, z == a.tab[i - var.lo]) for i in al if a.tab[i - var.lo] is not None]))
        for vid, z in cx["b"].items(): s.add(zin(z, f.sets.get(vid) or range(256)))
        r = s.check(); self.stats["queries"] += 1; self.stats["z3_s"] += time.time() - t0
        if r == z3.unsat: return None
        if r == z3.unknown: self.stats["unknown"] += 1; return dict(f.model) or {"unknown": 1}
        m = s.model(); out = dict(f.model)
        for vid, z in cx["b"].items():
            x = m[z]
            if x is not None: out[vid] = x.as_long()
        for vid, gs in cx["g"].items():
            var = self.vars[vid]
            if var.kind == "byte" and vid not in cx["b"]:
                a, z = gs[0]; x = m[z]
                if x is not None:
                    al = f.sets.get(vid) or range(256)
                    out[vid] = next((i for i in al if a.tab[i] == x.as_long()), out.get(vid, 0))
        return out

def zin(e, vs):
    vs = sorted(vs); rs = []; i = 0
    while i < len(vs):
        k = i
        while k + 1 < len(vs) and vs[k + 1] == vs[k] + 1: k += 1
        rs.append(e == vs[i] if k == i else z3.And(e >= vs[i], e <= vs[k])); i = k + 1
    return z3.Or(rs) if len(rs) != 1 else rs[0]

IDENT = tuple(range(256))
