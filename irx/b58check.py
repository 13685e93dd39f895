"""b58check.py REQUEST.json RESULT.json : base58 cases decided over integer terms.
case: {"op": enc|dec|rt|cenc|cdec, "in": [[class, count], ...], "pl": prefix length}
byte classes: "*" any, "+" nonzero, "v" base58 character other than '1', "V" any base58
character, "s" white space, an integer: that byte."""
import json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import irx
from irx import *
from intdom import *
REPO = irx.REPO
ALPHA = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
DEC = tuple(ALPHA.index(c) if c in ALPHA else None for c in range(256))
SPACE = frozenset((32, 9, 10, 11, 12, 13))
CLS = {"*": frozenset(range(256)), "+": frozenset(range(1, 256)), "V": frozenset(ALPHA), "v": frozenset(ALPHA[1:]), "s": SPACE}

def ref_enc(b):
    z = len(b) - len(b.lstrip(b"\0")); n = int.from_bytes(b, "big"); o = bytearray()
    while n: n, d = divmod(n, 58); o.append(ALPHA[d])
    return b"1" * z + bytes(reversed(o))
def ref_dec(t):
    """None: rejected"""
    i = 0
    while i < len(t) and t[i] in SPACE: i += 1
    z = 0
    while i < len(t) and t[i] == 49: z += 1; i += 1
    n = 0
    while i < len(t) and DEC[t[i]] is not None: n = n * 58 + DEC[t[i]]; i += 1
    while i < len(t) and t[i] in SPACE: i += 1
    if i < len(t) and t[i] != 0: return None
    return bytes(z) + n.to_bytes((n.bit_length() + 7) // 8, "big")

class Fail(Exception):
    def __init__(self, what, S): self.what, self.S = what, S

class Checker:
    def __init__(self, work):
        self.work = work; self.dom = IntDom()
        srcs = [os.path.join(REPO, "src", "base58.c"), os.path.join(REPO, "src", "btc", "base58_check.c"), os.path.join(REPO, "src", "cleanse.c")]
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".c") and "58" in f and p not in srcs: srcs.append(p)
        self.mod = Module(compile_ir(srcs + [os.path.join(HERE, "libc_model.c"), os.path.join(HERE, "b58_wrap.c")], work))
        self.vm = VM(self.mod, self.dom); self.paths = 0; self.obl = 0
        self.wipe = False; self.nh = 0
        self.vm.ext["fingera_btc_hash256"] = self.hash
        self.vm.ext["memcmp"] = self.vm.ext["bcmp"] = self.memcmp
    def memcmp(self, S, a):
        """both buffers must be readable; the result is arbitrary unless the bytes are concrete"""
        n = self.vm.conc(S, a[2])
        x = [self.vm.load(S, self.vm.padd(S, a[0], i), 1) for i in range(n)]
        y = [self.vm.load(S, self.vm.padd(S, a[1], i), 1) for i in range(n)]
        if all(type(v) is int for v in x + y): return (0 if x == y else 1 if x > y else (1 << 32) - 1)
        b = self.dom.sym_byte("cmp"); f = self.dom.facts(S); f.sets[b.var.id] = frozenset((0, 1)); f.model = dict(f.model); f.model[b.var.id] = 0
        return B(b.var, b.tab, 32)
    def hash(self, S, a):
        """an arbitrary function of the bytes: fresh values, equal for equal arguments"""
        n = self.vm.conc(S, a[1]); o = []
        for i in range(n): o.append(self.vm.load(S, self.vm.padd(S, a[0], i), 1))
        key = tuple(x if type(x) is int else (lambda v: (v.l.id if type(v) is V else v))(self.dom.toV(S, x)) for x in o)
        memo = dict(S.hooks.get("hash", {})); r = memo.get(key)
        if r is None:
            r = []
            for i in range(32):
                b = self.dom.sym_byte("hash%d_%d" % (len(memo), i)); r.append(b)
                f = self.dom.facts(S); f.model = dict(f.model); f.model[b.var.id] = 0x33
            memo[key] = r; S.hooks["hash"] = memo
        for i in range(32): self.vm.store(S, self.vm.padd(S, a[2], i), r[i], 1)
        return None
    def size(self, name, *a):
        S = self.vm.new_state(); self.vm.call(S, name, list(a)); r = list(self.vm.run(S))
        if len(r) != 1 or r[0].result[0] != "ret": raise Unsupported("length helper " + name)
        return r[0].result[1]
    def start(self, case, seed=1, S=None, pre="in"):
        """symbolic input of the case (in a new process, or in a later call of state S)"""
        vm, dom = self.vm, self.dom
        if S is None:
            S = vm.new_state(); self.statics = {o: dict(S.mem[o].cells) for o in vm.gid.values() if S.mem[o]}
        f = dom.facts(S); f.sets = dict(f.sets); f.model = dict(f.model)
        n = sum(c for _, c in case["in"])
        p = vm.alloc(S, n, "heap", "input"); S.mem[p.o].ro = True; bs = []; i = 0
        rnd = random.Random(seed)
        for cls, cnt in case["in"]:
            for _ in range(cnt):
                if type(cls) is int: b = cls
                else:
                    b = dom.sym_byte("%s%d" % (pre, i)); s = CLS[cls]
                    f.sets[b.var.id] = s; f.model[b.var.id] = rnd.choice(sorted(s))
                bs.append(b); S.mem[p.o].cells[i] = (b, 1); i += 1
        if self.wipe:
            def chk(S, o):
                for k, (v, w) in o.cells.items():
                    if type(v) in (V, B): raise Bug("scratch memory (%d bytes) released while byte %d still holds converted data" % (o.size, k))
            S.hooks["free"] = lambda S, oid: chk(S, S.mem[oid])
            def leave(S, fr, oid):
                if S.mem[oid].size >= 64: chk(S, S.mem[oid])
            S.hooks["leave"] = leave
        return S, p, bs, n
    # ---- helpers on finished paths
    def zero(self, S, l):
        """lin == 0 on this path?  (normal form, else solver)"""
        self.obl += 1
        v = self.dom.toV(S, V(l, l.lo, l.hi)).l
        if not v.t: return v.c == 0
        return not self.dom.feasible(S, Cond("eq", v).neg())
    def fork(self, S, b, cls):
        """states in which byte b is inside / outside the class (None: impossible)"""
        if type(b) is int: return (S, None) if b in cls else (None, S)
        c = B(b.var, tuple(int(i in cls) for i in range(256)), 1); vs = self.dom.vals(S, c)
        if vs == {1}: return S, None
        if vs == {0}: return None, S
        T = S.fork(self.vm); self.dom.last = None; self.dom.assume(T, c, True); self.dom.assume(S, c, False)
        return T, S
    def lin(self, S, x): return self.dom.toV(S, x).l
    def number(self, S, xs, base):
        l = self.dom.const(0)
        for x in xs: l = self.dom.lincomb(l, base, self.lin(S, x), 1)
        return l
    def out(self, S, p, n):
        o = S.mem[p.o]
        if type(n) is not int: raise Unsupported("symbolic length returned")
        if n > o.size: raise Fail("returned length %d exceeds the announced size %d" % (n, o.size), S)
        return [self.vm.load_byte(S, o, k) for k in range(n)]
    def digits(self, S, cs):
        ds = []
        for c in cs:
            if type(c) is int: d = DEC[c]
            elif type(c) is B:
                d = B(c.var, tuple(None if v is None else (-1 if DEC[v] is None else DEC[v]) for v in c.tab), 8)
                if -1 in self.dom.vals(S, d): d = None
            else: raise Unsupported("computed character")
            if d is None: raise Fail("a character outside the base58 alphabet is written", S)
            ds.append(d)
        return ds
    def expect_enc(self, S, bs, cs, what="encoding"):
        """cs is exactly the base58 text of the bytes bs"""
        i = 0; st = [(S, 0)]
        while st:
            S, i = st.pop()
            while i < len(bs):
                z, nz = self.fork(S, bs[i], frozenset((0,)))
                if z is not None and nz is not None: st.append((nz, i)); S = z; i += 1; continue
                if nz is not None: break
                i += 1
            z = i; cs_ = cs
            if len(cs_) < z: raise Fail("%s: %d characters for %d leading zero bytes" % (what, len(cs_), z), S)
            for c in cs_[:z]:
                if not self.zero(S, self.dom.lincomb(self.lin(S, c), 1, self.dom.const(49), -1)): raise Fail(what + ": leading zero byte is not written as '1'", S)
            ds = self.digits(S, cs_[z:])
            X = self.number(S, bs[z:], 256); Y = self.number(S, ds, 58)
            if not self.zero(S, self.dom.lincomb(X, 1, Y, -1)): self.differ(S, X, Y, what + ": the digits do not denote the number")
            if ds and self.top_zero(S, ds[0]): raise Fail(what + ": superfluous leading digit", S)
    def differ(self, S, X, Y, what):
        d = self.dom.lincomb(X, 1, Y, -1)
        self.dom.last = None; self.dom.assume(S, Cond("eq", d).neg(), True)
        raise Fail(what, S)
    def top_zero(self, S, d):
        self.obl += 1
        l = self.lin(S, d)
        c = Cond("lt", self.dom.mklin(l.t, l.c - 1))
        if l.lo >= 1: return False
        if self.dom.feasible(S, c): self.dom.last = None; self.dom.assume(S, c, True); return True
        return False
    def expect_dec(self, S, bs, r, outp):
        """the decoder's result r for text bs"""
        dom = self.dom
        # phases: 0 leading space, 1 ones, 2 digits, 3 trailing space, 4 end of the text
        st = [(S, 0, 0, 0, ())]
        while st:
            S, i, ph, z, ds = st.pop()
            acc = i == len(bs)
            while i < len(bs):
                cls = (SPACE, frozenset((49,)), CLS["V"], SPACE, frozenset((0,)))[ph]
                a, b = self.fork(S, bs[i], cls)
                if ph == 4:
                    if a is not None and b is not None: self.cmp_dec(b, False, z, ds, r, outp)
                    acc = a is not None; S = a or b; break
                if a is not None and b is not None: st.append((b, i, ph + 1, z, ds))
                if a is None: S = b; ph += 1; continue
                S = a; i += 1; acc = True
                if ph == 1: z += 1
                if ph == 2: ds = ds + (bs[i - 1],)
            self.cmp_dec(S, acc, z, ds, r, outp)
    def cmp_dec(self, S, acc, z, ds, r, outp):
        dom = self.dom
        if not acc:
            self.obl += 1
            if r != 0: raise Fail("text with a character that is not base58 is accepted", S)
            return
        gs = [B(d.var, tuple(None if d.tab[i] is None or DEC[d.tab[i]] is None else DEC[d.tab[i]] for i in range(256)), 8) if type(d) is B else DEC[d] for d in ds]
        if type(r) is int and r < z: raise Fail("valid text is rejected or its leading '1' characters are dropped", S)
        o = self.out(S, outp, r)
        for x in o[:z]:
            if not self.zero(S, self.lin(S, x)): raise Fail("leading '1' is not decoded to a zero byte", S)
        X = self.number(S, gs, 58); Y = self.number(S, o[z:], 256)
        if not self.zero(S, dom.lincomb(X, 1, Y, -1)): self.differ(S, X, Y, "the decoded bytes are not the number denoted by the text")
        if len(o) > z and self.top_zero(S, o[z]): raise Fail("superfluous leading zero byte", S)
    # ---- cases
    def case(self, case):
        self.wipe = bool(case.get("wipe"))
        try: self._case(case)
        except Fail as e: return self.cex(e.what, e.S, case, getattr(e, "second", None))
        return None
    def done(self, T):
        self.paths += 1
        if T.result[0] != "ret": raise Fail(T.result[1], T)
        live = T.hooks.get("live") or frozenset()
        if live: raise Fail("memory leak", T)
        return T.result[1]
    def pure(self, T, case, bs):
        """static data is as before the call; otherwise later calls are executed from the
        changed state and must be exact as well"""
        vm = self.vm; self.obl += 1
        if all(T.mem[o].cells == c for o, c in self.statics.items()): return
        self.touched = True; work = vm.work
        for cls in ([c for c in case["in"]], [["*" if case["op"] == "enc" else "V", 2]]):
            c2 = dict(case, **{"in": cls}); c2.pop("pure"); U = T.fork(vm); U.result = None; U.stack = []
            try: self._case(c2, U)
            except Fail as e: e.what = "a later call: " + e.what; e.second = cls; raise
        vm.work = work
    def _case(self, case, later=None):
        vm, dom = self.vm, self.dom; op = case["op"]
        S, p, bs, n = self.start(case, S=later, pre="jn") if later is not None else self.start(case)
        if op in ("enc", "rt"):
            o = vm.alloc(S, self.size("vf_enc_len", n), "heap", "output"); vm.call(S, "fingera_to_base58", [p, n, o])
            for T in (list(vm.run(S)) if case.get("pure") else vm.run(S)):
                r = self.done(T)
                if self.wipe: continue
                if case.get("pure"): self.pure(T, case, bs); continue
                cs = self.out(T, o, r)
                if op == "enc": self.expect_enc(T, bs, cs); continue
                work = vm.work; T.result = None; T.stack = []
                b2 = vm.alloc(T, self.size("vf_dec_len", r), "heap", "decoded")
                vm.call(T, "fingera_from_base58", [o, r, b2])
                for U in list(vm.run(T)):
                    r2 = self.done(U)
                    if r2 != n: raise Fail("decoding the encoded text gives %s bytes instead of %d" % (r2, n), U)
                    for x, y in zip(self.out(U, b2, n), bs):
                        a, b = self.lin(U, x), self.lin(U, y)
                        if not self.zero(U, dom.lincomb(a, 1, b, -1)): self.differ(U, a, b, "decoding the encoded text gives other bytes")
                vm.work = work
        elif op == "dec":
            o = vm.alloc(S, self.size("vf_dec_len", n), "heap", "output"); vm.call(S, "fingera_from_base58", [p, n, o])
            for T in (list(vm.run(S)) if case.get("pure") else vm.run(S)):
                r = self.done(T)
                if case.get("pure"): self.pure(T, case, bs)
                elif not self.wipe: self.expect_dec(T, bs, r, o)
        elif op == "cenc":
            pl = case.get("pl", 0)
            o = vm.alloc(S, self.size("vf_chk_enc_len", n - pl, pl), "heap", "output")
            pre = vm.alloc(S, pl, "heap", "prefix"); buf = vm.alloc(S, n - pl, "heap", "payload")
            for i, b in enumerate(bs): S.mem[(pre if i < pl else buf).o].cells[i if i < pl else i - pl] = (b, 1)
            S.mem[pre.o].ro = S.mem[buf.o].ro = True
            vm.call(S, "fingera_to_base58_check", [buf, n - pl, pre, pl, o])
            for T in (list(vm.run(S)) if case.get("pure") else vm.run(S)):
                r = self.done(T)
                if self.wipe: continue
                if case.get("pure"): self.pure(T, case, bs); continue
                h = list(T.hooks.get("hash", {}).items())
                if len(h) != 1: raise Fail("the checksum is not one double SHA-256", T)
                self.expect_enc(T, bs + h[0][1][:4], self.out(T, o, r), "base58check")
        elif op == "cdec":
            o = vm.alloc(S, self.size("vf_chk_dec_len", n), "heap", "output"); vm.call(S, "fingera_from_base58_check", [p, n, o])
            for T in list(vm.run(S)):              # size, memory safety, leaks
                self.done(T)
                if case.get("pure"): self.pure(T, case, bs)
        else: raise Unsupported("case " + op)
    def cex(self, what, S, case, second=None):
        m = self.dom.solve(S, [], 60000)
        f = self.dom.facts(S)
        if m is None: return None if self.note("infeasible path dropped: " + what) else None
        names = {v.name: v.id for v in self.dom.vars if v.kind == "byte"}
        # the newest variable of each name belongs to this case
        def text(pre, cs):
            out = []; i = 0
            for cls, cnt in cs:
                for _ in range(cnt):
                    if type(cls) is int: out.append(cls)
                    else:
                        k = names["%s%d" % (pre, i)]; v = m.get(k, 0); s = f.sets.get(k)
                        out.append(v if s is None or v in s else min(s))
                    i += 1
            return bytes(out)
        return what, text("in", case["in"]), text("jn", second) if second else None
    def note(self, t): self.notes = getattr(self, "notes", []) + [t]; return True

def case_file(path, case, data, second=None):
    """second: a later call in the same process, with the same result expected as in a new one"""
    if second is not None:
        case_file(path, case, data); a = open(path, "rb").read(); case_file(path, case, second); b = open(path, "rb").read()
        open(path, "wb").write(a + b + a); return
    op = case["op"]
    if case.get("wipe"):
        r = random.Random(5); alt = bytearray(data); i = 0
        for cls, cnt in case["in"]:
            for _ in range(cnt):
                if type(cls) is not int:
                    s = sorted(CLS[cls] & (CLS["V"] if data[i] in ALPHA and op[-3:] == "dec" else CLS["*"]) or CLS[cls]); alt[i] = r.choice(s) if op[-3:] == "dec" else (data[i] ^ 0x55 or 1) if data[i] else 0
                    if op[-3:] == "dec" and DEC[data[i]] is None or data[i] == 49: alt[i] = data[i]
                i += 1
        open(path, "wb").write(b"%s %d 0 %d 1\n" % (op.encode(), len(data), case.get("pl", 0)) + data + bytes(alt)); return
    import hashlib
    h = lambda x: hashlib.sha256(hashlib.sha256(x).digest()).digest()
    if op == "cdec":
        d = ref_dec(data) or b""; e = d[:-4] if len(d) >= 4 and h(d[:-4])[:4] == d[-4:] else b""
    elif op == "cenc": e = ref_enc(data + h(data)[:4])
    elif op == "dec": e = ref_dec(data) or b""
    else: e = ref_enc(data)
    open(path, "wb").write(b"%s %d %d %d 0\n" % (b"enc" if op == "rt" else op.encode(), len(data), len(e), case.get("pl", 0)) + data + e)

def replay(work, path, huge=False):
    exe = os.path.join(work, "native_b58")
    wipe = open(path, "rb").readline().split()[4] == b"1"
    srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith(".c") and ("58" in f or f == "cleanse.c" or not wipe and "/hash" in os.path.join(d, f))]
    san = [] if wipe else ["-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow", "-fno-sanitize-recover=all"]
    objs = []
    for i, s in enumerate(srcs + [os.path.join(HERE, "native_b58.c")]):
        o = os.path.join(work, "r%d.o" % i); objs.append(o)
        ren = ["-Dmalloc=vf_malloc", "-Dfree=vf_free", "-Dcalloc=vf_calloc"] if i < len(srcs) else ["-DSTUBHASH"] if wipe else []
        subprocess.run([CLANG, *CFLAGS, "-g", "-O0", *san, *ren, "-c", s, "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    subprocess.run([CLANG, *san, "-Wl,-z,now", *objs, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=100, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99:detect_stack_use_after_return=0"))
    return p.returncode, p.stdout[-3000:]

def fails(rc): return rc in (1, 99) or rc < 0

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0}
    try:
        inp = os.path.join(work, "case.bin")
        def one(ck, c):
            t1 = time.time()
            r = ck.case(c)
            if os.environ.get("B58V"): print(c, "paths", ck.paths, "obl", ck.obl, ck.dom.stats, "%.1f" % (time.time() - t1), r, flush=True)
            if r is None: return None
            what, data, second = r
            case_file(inp, c, data, second); rc, out = replay(work, inp)
            if not fails(rc): return "unreplayed: %s on %s (native run: %s %s)" % (what, data.hex() + (" then " + second.hex() if second is not None else ""), rc, out[-300:])
            res.update(status="violation", note="%s: %s of %s" % (what, c["op"], data.hex()), input=inp, output=out, case=c); return "stop"
        budget(req); ck = drive(res, req["cases"], lambda: Checker(work), one)
        if res["status"] == "ok" and req["cases"]:
            c = req["cases"][-1]; r = random.Random(req["seed"])
            data = bytes(cls if type(cls) is int else r.choice(sorted(CLS[cls])) for cls, n in c["in"] for _ in range(n))
            case_file(inp, c, data, data[::-1] if c.get("pure") else None); rc, out = replay(work, inp)
            res["native_sample"] = [c, data.hex(), rc]
            if fails(rc): res.update(status="violation", note="native sample run fails", input=inp, output=out, case=c)
        if ck.dom.stats["unknown"] and res["status"] == "ok": res["note"] += "%d solver timeouts, treated as possible" % ck.dom.stats["unknown"]
        res["stats"] = ck.dom.stats; res["steps"] = ck.vm.steps; res["nodes"] = ck.dom.nterms; res["paths"] = ck.paths; res["obligations"] = ck.obl + ck.paths; res["functions"] = sorted(ck.vm.used)
    except Unsupported as e: res.update(status="unsupported", note=str(e) + traceback.format_exc()[-600:])
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
