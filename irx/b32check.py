"""b32check.py REQUEST.json RESULT.json : bech32 against BIP173, on every path of the code.
cases: ["enc", H, N]             part of H characters 33..126, N values 0..31, all contents
       ["dec", L, cap, shape]    text of L bytes; shape: one letter per position,
                                 "*" any byte, "d" any valid character of either case,
                                 "l" lower-case letter or digit but 1, else that character
The checksum comparison of the code and BIP173's are brought to one term by SMT sweeping
(each polymod step one lemma); the comparison then stands in queries as one Boolean."""
import json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import irx, z3
from irx import *
from pdom import *
from merge import MVM
REPO = irx.REPO
SET = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
def polymod(vs):
    c = 1
    for v in vs:
        b = c >> 25; c = (c & 0x1ffffff) << 5 ^ v
        for i in range(5): c ^= GEN[i] if b >> i & 1 else 0
    return c
VAL = tuple(SET.index(bytes([c]).lower()) if bytes([c]).lower() in SET and c < 128 else 255 for c in range(256))
LOW = tuple(c + 32 if 65 <= c <= 90 else c for c in range(256))
ANY = tuple(SET) + tuple(SET.upper())       # valid characters of both cases

class Dom(PDom):
    """decides comparisons of checksums through the specification's terms"""
    def __init__(self, seed):
        super().__init__(seed); self.opaque = {}; self.cache = {}
    def reset(self): self.opaque = {}; self.cache = {}; self.memo = {}; self.valid = {}; self.subst = {}; self.chars = []
    # values of a specification
    def step(self, c, v):
        b = self.mk("lshr", 32, c, 25) if type(c) is Node else c >> 25
        r = self.binop(None, "shl", 32, self.binop(None, "and", 32, c, 0x1ffffff), 5) if type(c) is Node else (c & 0x1ffffff) << 5
        r = self.xor(32, r, v)
        for i in range(5):
            if type(b) is int: r = self.xor(32, r, GEN[i] if b >> i & 1 else 0); continue
            if self.hi(c) >> (25 + i) == 0: continue
            k = self.extract(b, i, 1); r = self.xor(32, r, self.mk("ite", 32, k, GEN[i], 0))
            if type(r) is Node: self.mark_spec(r)
        return r
    def z(self, x, w=32): return x if type(x) is int else self.fit(x, w)
    def polymod(self, vs, c=1):
        for v in vs: c = self.step(c, self.z(v))
        if type(c) is Node: self.mark_spec(c)
        return c
    def expand(self, h):
        """BIP173 expansion of the part (8-bit characters)"""
        sh = lambda x: x >> 5 if type(x) is int else self.binop(None, "lshr", 8, x, 5)
        an = lambda x: x & 31 if type(x) is int else self.binop(None, "and", 8, x, 31)
        return [sh(x) for x in h] + [0] + [an(x) for x in h]
    # conditions
    def size(self, c):
        n = 0; st = [c]; seen = set()
        while st and n < 400:
            x = st.pop()
            if type(x) is int or x.id in seen: continue
            seen.add(x.id); n += 1; st.extend(y for y in x.a if type(y) is Node)
        return n
    def replace(self, n):
        """n with the characters known to be valid written as table look-ups of their index"""
        memo = self.cache.setdefault((frozenset(self.now), frozenset(self.nowlow)), {})
        for i in self.nowlow: memo[self.chars[i][0].id] = self.chars[i][1]
        st = [n]
        while st:
            x = st[-1]
            if type(x) is int or x.id in memo: st.pop(); continue
            if x.op == "sym": memo[x.id] = self.subst[x.a[0]] if x.a[0] in self.now else x; st.pop(); continue
            p = [y for y in x.a if type(y) is Node and y.id not in memo]
            if p: st.extend(p); continue
            a = [memo[y.id] if type(y) is Node else y for y in x.a]
            if all(u is v for u, v in zip(a, x.a)): r = x
            elif x.op == "tab": r = self.table(x.w, a[0], a[1]) if type(a[0]) is Node else evalop("tab", x.w, a, [None])
            elif x.op == "ite": r = (a[1] if a[0] else a[2]) if type(a[0]) is int else self.mk("ite", x.w, *a)
            elif x.op in ("zext", "sext") and type(a[0]) is int: r = evalop(x.op, x.w, a, [x.a[0].w])
            elif x.op.startswith(("cmp_", "rcmp_")) and type(a[0]) is int and type(a[1]) is int: r = evalop(x.op, 1, a, [next(y.w for y in x.a if type(y) is Node)] * 2)
            else: r = self.rebuild(x.op, x.w, a)
            memo[x.id] = r; st.pop()
        return memo[n.id]
    def syms(self, n):
        out = set(); st = [n]; seen = set()
        while st:
            x = st.pop()
            if type(x) is int or x.id in seen: continue
            seen.add(x.id)
            if x.op == "sym": out.add(x.a[0])
            else: st.extend(x.a) if x.op != "tab" else st.append(x.a[0])
        return out
    def poly(self, c): return any(type(y) is Node and y.w == 32 for y in c.a) and len(self.syms(c)) >= 4
    def canon(self, S, c):
        if type(c) is int or c.id in self.opaque: return c
        if c.op == "xor" and c.w == 1 and c.a[1] == 1: return self.b_not(self.canon(S, c.a[0]))
        if not c.op.startswith(("cmp_", "rcmp_")) or (self.size(c) < 60 and not self.poly(c)): return c
        self.now = set()
        for s in self.syms(c):
            if s in self.valid:
                q = self.valid[s]
                if self.facts(S).known.get(("ok", s)) or super().check(S, q, 0) is None: self.facts(S).known[("ok", s)] = 1; self.now.add(s)
        # a character that cannot be upper case is its own lower case
        self.nowlow = set(); sy = self.syms(c)
        for i, (x, l) in enumerate(self.chars):
            if type(x) is Node and x is not l and (x.a[0] if x.op == "sym" else x.a[0].a[0]) in sy and not (x.op == "sym" and x.a[0] in self.now):
                k = self.facts(S).known.get(("low", i))
                if k is None: k = self.facts(S).known[("low", i)] = super().check(S, self.icmp(S, "eq", 8, x, l), 0) is None
                if k: self.nowlow.add(i)
        d = self.replace(c)
        if type(d) is int: return d
        return self.sweep([d])[0]
    def decide(self, S, c):
        c = self.canon(S, c)
        if type(c) is int: return bool(c), not c
        return super().decide(S, c)
    def assume(self, S, c, t):
        c = self.canon(S, c)
        if type(c) is int: return
        super().assume(S, c, t)
    def check(self, S, c, v):
        f = self.facts(S); f.models = []     # models here do not know the checksum
        if c.id in self.opaque and c.id not in f.known: return {}
        return super().check(S, c, v)
    def _merge(self, x):
        if x.w == 1 and not (x.op.startswith(("cmp_", "rcmp_")) and (self.size(x) >= 60 or self.poly(x))):
            # single conditions are not looked up among the specification's
            a = [self.rep[y.id] if type(y) is Node else y for y in x.a]
            if all(p is q for p, q in zip(a, x.a)): n = x
            elif not any(type(p) is Node for p in a): return evalop(x.op, x.w, a, [y.w if type(y) is Node else None for y in x.a])
            else: n = self.rebuild(x.op, x.w, a)
            if type(n) is Node: self.rep.setdefault(n.id, n)
            return n
        return super()._merge(x)
    def hide(self, n):
        """n becomes a free Boolean in the queries"""
        if type(n) is int: return
        self.opaque[n.id] = n; self.memo[n.id] = z3.BitVec("chk%d" % n.id, 1)

class Bad(Exception):
    def __init__(self, what, files): self.what, self.files = what, files
def enc_file(h, v): return b"enc %d %d\n" % (len(h), len(v)) + h + v
def dec_file(t, cap): return b"dec %d %d\n" % (len(t), cap) + t

class Checker:
    def __init__(self, work, seed):
        self.dom = Dom(seed); self.seed = seed; self.paths = self.obl = 0
        d = os.path.join(work, "ir"); os.makedirs(d, exist_ok=True)
        src = [os.path.join(d_, f) for d_, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f in ("bech32.c", "hex.c", "base32.c", "cleanse.c")]
        self.mod = Module(compile_ir(src + [os.path.join(HERE, "libc_model.c")], d))
        for f in self.mod.funcs.values():
            if f.name == "@fingera_bech32_decode": f.keep_returns = True
        self.vm = MVM(self.mod, self.dom); self.vm.check_nsw = False
    def state(self): self.dom.reset(); return self.vm.new_state()
    def pure(self, T, S0):
        for g, o in self.vm.gid.items():
            x, y = T.mem[o], S0[o]
            if x is not y and x.size is not None and x.cells != y.cells:
                for f in range(x.size):
                    u, v = self.vm.load_byte(T, x, f), self.vm.load_byte(T, y, f)
                    if not (u is v or type(u) is int and u == v): raise Unsupported("static data %s changes" % g)
    def buf(self, S, n, name, vals, ro=True):
        p = self.vm.alloc(S, n, "heap", name)
        for i, v in enumerate(vals): S.mem[p.o].cells[i] = (v, 1)
        S.mem[p.o].ro = ro
        return p
    # ------------------------------------------------------------ encoding
    def enc(self, H, N):
        dom, vm = self.dom, self.vm; S = self.state(); S0 = dict(S.mem)
        h = [dom.sym("h%d" % i) for i in range(H)]; v5 = [dom.sym("v%d" % i, 5) for i in range(N)]; v = [dom.cast(None, "zext", 5, 8, x) for x in v5]
        for x in h: dom.assume(S, dom.icmp(S, "uge", 8, x, 33), True); dom.assume(S, dom.icmp(S, "ule", 8, x, 126), True)
        ph, pv = self.buf(S, H, "part", h), self.buf(S, N, "values", v); po = vm.alloc(S, H + N + 7, "heap", "result")
        m = dom.polymod(dom.expand(h) + v + [0] * 6); m = dom.xor(32, m, 1)
        if type(m) is Node: dom.mark_spec(m)
        ck = [self.five(m, 5 * (5 - i)) for i in range(6)]
        want = h + [ord("1")] + [dom.table(8, x, tuple(SET)) for x in v] + [dom.table(8, x, tuple(SET)) if type(x) is Node else SET[x] for x in ck]
        for x in want:
            if type(x) is Node: dom.mark_spec(x)
        files = lambda: self.enc_files(H, N)
        vm.call(S, "fingera_bech32_encode", [ph, H, pv, N, po])
        for T in vm.run(S):
            self.paths += 1
            if T.result[0] != "ret": raise Bad("encoding ends with: %s" % (T.result[1],), files())
            got = [vm.load_byte(T, T.mem[po.o], i) for i in range(H + N + 7)]
            if any(self.sample(x) != self.sample(y) for x, y in zip(got, want)): raise Bad("the encoded text differs from BIP173", files())
            for i, (x, y) in enumerate(zip(dom.sweep(got), want)):
                self.obl += 1
                if x is y or (type(x) is int and type(y) is int and x == y): continue
                if type(x) is Node and type(y) is Node and (dom.prove(x, y, (6, 12, 25), 10000) or self.whole(T, x, y)): continue
                raise Bad("character %d of the encoded text differs from BIP173" % i, files())
            self.pure(T, S0)
    def whole(self, T, x, y):
        s = z3.Solver(); s.set("timeout", 30000); s.add(self.dom.to_z3(x) != self.dom.to_z3(y)); return s.check() == z3.unsat
    def five(self, m, k):
        if type(m) is int: return m >> k & 31
        return self.dom.fit(self.dom.extract(m, k, 5), 8)
    def sample(self, x): return x.sig if type(x) is Node else (x,) * len(self.dom.sym("any").sig)
    def enc_files(self, H, N):
        r = random.Random(self.seed); out = []
        for k in range(30):
            h = bytes(r.choice((33, 126, r.randrange(33, 127), r.choice(b"abcdefghijklmnopqrstuvwxyz"))) for _ in range(H))
            if k % 2: h = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(H))
            out.append(enc_file(h, bytes(r.choice((0, 31, r.randrange(32), r.randrange(32))) for _ in range(N))))
        return out
    # ------------------------------------------------------------ decoding
    def dec(self, L, cap, shape):
        dom, vm = self.dom, self.vm; S = self.state(); S0 = dict(S.mem); s = []
        shape = shape or "*" * L
        for i, k in enumerate(shape):
            if k == "*":
                x = dom.sym("s%d" % i); s.append(x)
                dom.valid["s%d" % i] = dom.icmp(None, "ne", 8, dom.table(8, x, VAL), 255); dom.subst["s%d" % i] = dom.table(8, dom.sym("i%d" % i, 6), ANY)
            elif k == "d": s.append(dom.table(8, dom.sym("i%d" % i, 6), ANY))
            elif k == "l": s.append(dom.table(8, dom.sym("v%d" % i, 5), tuple(SET)))
            elif k == "u": s.append(dom.table(8, dom.sym("v%d" % i, 5), tuple(SET.upper())))
            else: s.append(ord(k))
        self.s, self.shape, self.cap = s, shape, cap
        T8 = lambda x, t: t[x] if type(x) is int else dom.table(8, x, t)
        ic = lambda p, w, a, b: (lambda r: r)(irx.icmp(vm, S, p, w, a, b))
        AND = dom.b_and; OR = lambda xs: dom.b_not(AND([dom.b_not(x) for x in xs]))
        low = [T8(x, LOW) for x in s]
        rng = AND([AND([ic("uge", 8, x, 33), ic("ule", 8, x, 126)]) for x in s])
        up = OR([AND([ic("uge", 8, x, 65), ic("ule", 8, x, 90)]) for x in s]); lo = OR([AND([ic("uge", 8, x, 97), ic("ule", 8, x, 122)]) for x in s])
        case = dom.b_not(AND([up, lo])); is1 = [ic("eq", 8, x, 49) for x in s]
        ok = [ic("ne", 8, T8(x, VAL), 255) for x in s]
        self.low = low; dom.chars = list(zip(s, low))
        vals = [T8(dom.subst["s%d" % i] if shape[i] == "*" else x, VAL) for i, x in enumerate(s)]
        for i, x in enumerate(vals):
            if type(x) is Node: dom.mark_spec(x)
        for x in low:
            if type(x) is Node: dom.mark_spec(x)
        validp = {}
        if L <= 90:
            for p in range(1, L - 6):
                c = AND([is1[p]] + [ok[j] for j in range(p + 1, L)])
                if type(c) is int and not c: continue
                ex = dom.expand(low[:p])
                for x in ex:
                    if type(x) is Node: dom.mark_spec(x)
                m = dom.polymod(ex + vals[p + 1:])
                if type(m) is Node: e = dom.mk("cmp_eq", 1, m, 1); dom.mark_spec(e); dom.hide(e)
                else: e = int(m == 1)
                validp[p] = AND([rng, case, c, e])
        pt = self.buf(S, L, "text", s); ph = vm.alloc(S, cap, "heap", "part"); pd = vm.alloc(S, max(L - 7, 0), "heap", "values"); pz = vm.alloc(S, 8, "heap", "part size"); vm.store(S, pz, cap, 8)
        vm.call(S, "fingera_bech32_decode", [pt, L, ph, pz, pd])
        for T in vm.run(S):
            self.paths += 1
            if T.result[0] != "ret": self.bad(T, "decoding ends with: %s" % (T.result[1],), None)
            self.pure(T, S0)
            for U, r in self.outcomes(T, T.result[1]): self.after(U, sgn(r, 32), validp, L, cap, ph, pd, pz, vals)
    def outcomes(self, T, r):
        dom = self.dom
        if type(r) is int: yield T, r; return
        if r.op == "ite":
            t, e = dom.decide(T, r.a[0])
            for k, ok in ((1, t), (0, e)):
                if ok:
                    U = T.fork(self.vm); dom.assume(U, r.a[0], bool(k)); yield from self.outcomes(U, r.a[1] if k else r.a[2])
            return
        for x in dom.values(T, r):
            U = T.fork(self.vm); dom.assume(U, dom.icmp(U, "eq", r.w, r, x), True); yield U, x
    def must(self, T, c, what, p):
        """c holds on the path (a value or a term)"""
        dom = self.dom; self.obl += 1
        if type(c) is int:
            if c: return
            self.bad(T, what, p)
        t = time.time(); s = dom.solver(dom.facts(T)); s.add(dom.to_z3(c, memo=dom.memo) == 0); r = s.check(); dom.stats["queries"] += 1; dom.stats["z3_s"] += time.time() - t
        if r == z3.unsat: return
        if r == z3.unknown: raise Unsupported("solver gave no answer")
        self.bad(T, what, p, s.model())
    def after(self, T, r, validp, L, cap, ph, pd, pz, vals):
        dom, vm = self.dom, self.vm
        if r < 0:
            for p, v in validp.items():
                if p <= cap: self.must(T, dom.b_not(v), "a valid string is rejected", p)
            return
        q = vm.load(T, pz, 8)
        if type(q) is not int:
            qs = dom.values(T, q)
            if len(qs) != 1:
                for x in qs:
                    U = T.fork(vm); dom.assume(U, dom.icmp(U, "eq", 64, q, x), True); vm.store(U, pz, x, 8); self.after(U, r, validp, L, cap, ph, pd, pz, vals)
                return
            q = qs[0]
        self.must(T, validp.get(q, 0), "an invalid string is accepted", q)
        if q > cap: self.bad(T, "a part longer than its buffer is accepted", q)
        if r != L - q - 7: self.bad(T, "%d values announced" % r, q)
        for i in range(q): self.same(T, vm.load_byte(T, T.mem[ph.o], i), self.low[i], "character %d of the part is wrong" % i, q)
        for i in range(r):
            x = self.s[q + 1 + i]; self.same(T, vm.load_byte(T, T.mem[pd.o], i), VAL[x] if type(x) is int else dom.table(8, x, VAL), "value %d is wrong" % i, q)
    def same(self, T, x, y, what, p):
        if x is y or (type(x) is int and type(y) is int and x == y): self.obl += 1; return
        self.must(T, irx.icmp(self.vm, T, "eq", 8, x, y), what, p)
    def bad(self, T, what, p, m=None):
        """candidate texts for the replay"""
        dom = self.dom; files = []; ms = []
        def text(a):
            memo = {}
            return bytes(dom.assign(a, x, memo) if type(x) is Node else x for x in self.s)
        def pick(m):
            o = {}
            for d in m.decls():
                k = dom.byid.get(d.name())
                if k is not None: o[k] = m[d].as_long()
            return o
        if m is not None: ms.append(pick(m))
        s = dom.solver(dom.facts(T)); rnd = random.Random(self.seed)
        for k in range(6):
            if s.check() != z3.sat: break
            a = pick(s.model()); ms.append(a)
            n = rnd.choice([x for x in self.s if type(x) is Node] or [None])
            if n is None: break
            s.add(dom.to_z3(n, memo=dom.memo) != dom.assign(a, n, {}))
        for a in ms:
            t = text(a); files.append(dec_file(t, self.cap))
            for q in ([p] if p else range(1, len(t) - 6)):
                if q is None or q > len(t) - 7: continue
                lowt = bytes(LOW[c] for c in t); vs = [VAL[c] & 31 for c in lowt[q + 1:-6]]
                x = polymod([c >> 5 for c in lowt[:q]] + [0] + [c & 31 for c in lowt[:q]] + vs + [0] * 6) ^ 1
                ck = bytes(SET[x >> (5 * (5 - i)) & 31] for i in range(6))
                files.append(dec_file(t[:-6] + (ck.upper() if any(65 <= c <= 90 for c in t) else ck), self.cap))
        raise Bad(what, files)
def replay(work, path, huge=False):
    exe = os.path.join(work, "native_b32")
    if not os.path.exists(exe):
        src = [os.path.join(d_, f) for d_, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f in ("bech32.c", "hex.c", "base32.c", "cleanse.c")]
        subprocess.run([CLANG, *CFLAGS, "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-U__NO_CTYPE", os.path.join(HERE, "native_b32.c"), *src, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0", UBSAN_OPTIONS="exitcode=99"))
    return p.returncode, p.stdout[-2000:]
def fails(rc): return rc in (1, 99) or rc < 0

def code_distance(dom):
    """BIP173: one or two substituted data characters are never another valid text (up to 90 characters)"""
    n = 0
    def mul(c):
        b = c >> 25; c = (c & 0x1ffffff) << 5
        for i in range(5): c ^= GEN[i] if b >> i & 1 else 0
        return c
    e1, e2 = z3.BitVecs("e1 e2", 5); x = [1 << i for i in range(5)]
    def lin(cs, e):
        r = z3.BitVecVal(0, 30)
        for i in range(5): r = r ^ z3.If(z3.Extract(i, i, e) == 1, z3.BitVecVal(cs[i], 30), z3.BitVecVal(0, 30))
        return r
    for d in range(1, 90):
        x = [mul(c) for c in x]
        s = z3.Solver(); s.add(e1 != 0, lin(x, e1) == z3.ZeroExt(25, e2)); n += 1
        if s.check() != z3.unsat: raise Unsupported("code distance")
    # a text with the checksum of its other characters is accepted: polymod(.. + checksum) = 1,
    # because each step adds the values of the last characters at their place
    c, d, v = z3.BitVecs("c d v", 32)
    def step(c, v):
        b = z3.LShR(c, 25); r = (c & 0x1ffffff) << 5 ^ v
        for i in range(5): r = r ^ z3.If(z3.Extract(i, i, b) == 1, z3.BitVecVal(GEN[i], 32), z3.BitVecVal(0, 32))
        return r
    s = z3.Solver(); s.add(z3.ULT(c, 1 << 30), z3.ULT(d, 1 << 25), z3.ULT(v, 32), step(c ^ d, v) != step(c, 0) ^ d << 5 ^ v); n += 1
    if s.check() != z3.unsat: raise Unsupported("checksum lemma")
    return n

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0}; inp = os.path.join(work, "case.bin"); nr = 0
    try:
        lemmas = code_distance(None) if req.get("distance") else 0
        def one(ck, c):
            t1 = time.time()
            try: (ck.enc if c[0] == "enc" else ck.dec)(*c[1:])
            except Bad as e:
                for f in e.files:
                    open(inp, "wb").write(f); rc, out = replay(work, inp)
                    if fails(rc): res.update(status="violation", note="%s (%s)" % (e.what, c), input=inp, output=out, case=c); return "stop"
                raise Unsupported("unreplayed: %s (%d native runs agree with BIP173)" % (e.what, len(e.files)))
            if os.environ.get("B58V"): print(c, "paths", ck.paths, "obl", ck.obl, ck.vm.merges, ck.vm.nomerge, ck.dom.stats, "%.1f" % (time.time() - t1), flush=True)
        budget(req); ck = drive(res, req["cases"], lambda: Checker(work, req["seed"]), one); ck.obl += lemmas
        if res["status"] == "ok":
            for c in req["cases"][:3]:
                files = ck.enc_files(c[1], c[2])[:3] if c[0] == "enc" else [dec_file(bytes(random.Random(req["seed"]).choice(b"1qpzry9x8gf2tvdw0s3jn54khce6mua7l") if k in "*dl" else ord(k) for k in (c[3] or "*" * c[1])), c[2])]
                for f in files:
                    open(inp, "wb").write(f); rc, out = replay(work, inp); nr += 1; res["native_sample"] = [c, rc]
                    if fails(rc): res.update(status="violation", note="native sample run fails", input=inp, output=out, case=c)
        res["native_runs"] = nr; res["stats"] = ck.dom.stats; res["steps"] = ck.vm.steps; res["nodes"] = ck.dom.n; res["paths"] = ck.paths; res["obligations"] = ck.obl; res["lemmas"] = len(ck.dom.lemmas)
        res["functions"] = sorted(x for x in ck.vm.used)
    except Unsupported as e: res.update(status="unsupported", note=str(e) + traceback.format_exc()[-600:])
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
