"""bigcheck.py REQUEST.json RESULT.json : the text codecs and the hex dump on large buffers.
case: [op, n, [positions]] : n bytes, the listed positions hold arbitrary bytes, the rest is
fixed.  Every path of the code is executed; results are compared with the specification."""
import base64, json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import irx
from irx import *
from pdom import *
REPO = irx.REPO
A62 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
B64, U64, B32, R32, HL, HU = A62 + b"+/", A62 + b"-_", b"abcdefghijklmnopqrstuvwxyz234567", bytes(range(32)), b"0123456789abcdef", b"0123456789ABCDEF"
# op: (alphabet, bits per character, bytes per group, padded)
ENC = {"hexl": (HL, 4, 1, 0), "hexu": (HU, 4, 1, 0), "b64e": (B64, 6, 3, 1), "u64e": (U64, 6, 3, 0), "b32e": (B32, 5, 5, 1), "r32e": (R32, 5, 5, 0)}
DEC = {"hexd": (HL, 4, 2), "b64d": (B64, 6, 4), "u64d": (U64, 6, 4), "b32d": (B32, 5, 8), "r32d": (R32, 5, 8)}
def val(op, c):
    al = DEC[op][0]
    if op in ("hexd", "b32d") and c < 128: c = ord(chr(c).lower())
    return al.index(c) if c in al else None
FN = {"hexl": "fingera_to_hex", "hexu": "fingera_to_hex", "b64e": "fingera_to_base64", "u64e": "fingera_to_base64_urlsafe", "b32e": "fingera_to_base32", "r32e": "fingera_to_base32_raw",
      "hexd": "fingera_from_hex", "b64d": "fingera_from_base64", "u64d": "fingera_from_base64_urlsafe", "b32d": "fingera_from_base32", "r32d": "fingera_from_base32_raw", "dumpl": "fingera_hex_dump", "dumpu": "fingera_hex_dump"}

def ref_enc(op, d):
    al, k, g, pad = ENC[op]; o = bytearray()
    for i in range(0, len(d), g):
        x = d[i:i + g]; bits = 8 * len(x); v = int.from_bytes(x, "big"); m = -(-bits // k); v <<= m * k - bits
        o += bytes(al[v >> (k * (m - 1 - j)) & (1 << k) - 1] for j in range(m))
        if pad: o += b"=" * (8 * g // k - m)
    return bytes(o)
def strip(op, t):
    """(text without its padding); t: list of characters"""
    n = len(t)
    if op == "b64d":
        for _ in range(2):
            if n and t[n - 1] == 61: n -= 1
            else: break
    if op == "b32d":
        for i in range(n):
            if t[i] == 61: n = i; break
    return n
def ref_dec(op, t):
    al, k, g = DEC[op]; n = strip(op, t); o = bytearray()
    for i in range(0, n, g):
        x = [val(op, c) for c in t[i:min(i + g, n)]]; m = len(x) * k // 8
        if None in x or (len(x) < g and (len(x) * k) % 8 >= k): break
        v = 0
        for y in x: v = v << k | y
        o += (v >> (len(x) * k - 8 * m)).to_bytes(m, "big")
    return bytes(o)
def ref_dump(up, d):
    return ref_join([ref_enc("hexu" if up else "hexl", bytes([b])) for b in d])
def ref_join(hx):
    o = bytearray()
    for i, h in enumerate(hx):
        if i:
            if i % 4 == 0: o += b" "
            if i % 8 == 0: o += b" "
            if i % 16 == 0: o += b" "
            if i % 32 == 0: o += b"\n"
        o += h
    return bytes(o) + b"\n"
def expected(op, d): return ref_enc(op, d) if op in ENC else ref_dec(op, d) if op in DEC else ref_dump(op[4] == "u", d)
def filler(op, n):
    if op in DEC:
        al = DEC[op][0]; t = bytes(al[(i * 7 + i // 11 + i // 4096) % len(al)] for i in range(n))
        return t.upper() if op == "hexd" and n % 2 else t
    return bytes((i * 37 + 11 + (i >> 8)) & 255 for i in range(n))

class Bad(Exception):
    def __init__(self, what, data): self.what, self.data = what, data

class Checker:
    def __init__(self, work, seed):
        self.dom = PDom(seed); self.paths = self.obl = 0
        d = os.path.join(work, "ir"); os.makedirs(d, exist_ok=True)
        src = [os.path.join(d_, f) for d_, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f in ("hex.c", "base32.c", "base64.c", "cleanse.c")]
        self.mod = Module(compile_ir(src + [os.path.join(HERE, "libc_model.c")], d))
        self.vm = VM(self.mod, self.dom); self.vm.check_nsw = False
        e = self.vm.ext
        def put(S, bs): S.hooks["out"] = S.hooks.get("out", ()) + (tuple(bs),)
        def rd(S, p, n): return [self.vm.load(S, self.vm.padd(S, p, i), 1) for i in range(n)]
        def low(c): return c & 255 if type(c) is int else self.dom.extract(c, 0, 8)
        def fwrite(S, a):
            s, n = self.vm.conc(S, a[1]), self.vm.conc(S, a[2]); put(S, rd(S, a[0], s * n)); return n
        def putc(S, a): put(S, [low(a[0])]); return a[0]
        def puts(nl):
            def g(S, a):
                bs = []; p = a[0]
                while True:
                    b = self.vm.load(S, p, 1)
                    if type(b) is not int: raise Unsupported("puts of unknown text")
                    if not b: break
                    bs.append(b); p = self.vm.padd(S, p, 1)
                put(S, bs + ([10] if nl else [])); return 1
            return g
        e["fwrite"] = e["fwrite_unlocked"] = fwrite; e["fputc"] = e["putc"] = e["putchar"] = putc; e["puts"] = puts(1); e["fputs"] = puts(0); e["fflush"] = lambda S, a: 0
    def model(self, T, f, extra=None):
        """concrete input of a path (with a further condition)"""
        s = self.dom.solver(self.dom.facts(T))
        if extra is not None: s.add(self.dom.to_z3(extra, memo=self.dom.memo) == 1)
        import z3
        if s.check() != z3.sat: return None
        m = self.dom.model(s); return bytes(m.get(x.a[0], 0) if type(x) is Node else x for x in f)
    def case(self, op, n, pos):
        dom, vm = self.dom, self.vm; S = vm.new_state(); fill = filler(op, n)
        f = [dom.sym("s%d" % i) if i in pos else fill[i] for i in range(n)]
        for g in ("@stdout", "@stderr"):
            if g in vm.gid:
                x = S.mem[vm.gid[g]].copy(S.token) if hasattr(S, "token") else S.mem[vm.gid[g]]
                x.size = 8; q = vm.alloc(S, 1, "heap", g); x.cells = {0: (q, 8)}; S.mem[vm.gid[g]] = x
        p = vm.alloc(S, n, "heap", "input")
        for i, x in enumerate(f): S.mem[p.o].cells[i] = (x, 1)
        S.mem[p.o].ro = True; ins = S.mem[p.o]
        if op in ENC:
            al, k, g, pad = ENC[op]; full, r = divmod(n, g); per = 8 * g // k
            size = full * per + (0 if not r else per if pad else -(-8 * r // k))
        else: size = n if op in DEC else 0
        if op in DEC: size = self.declen(S, op, p, n, f)
        o = vm.alloc(S, size, "heap", "output")
        args = [p, n, o] + ([int(op == "hexu")] if op[:3] == "hex" and op in ENC else [])
        if op[:4] == "dump": args = [p, n, int(op == "dumpu")]
        S.result = None; S.stack = []; S.steps = 0; vm.maxsteps = 3000000 + 300 * n
        vm.call(S, FN[op], args)
        for T in vm.run(S):
            self.paths += 1
            if T.result[0] != "ret": self.bad(T, f, "%s" % (T.result[1],))
            if T.mem[p.o] is not ins and T.mem[p.o].cells != ins.cells: self.bad(T, f, "the input is changed")
            r = T.result[1]
            if op in ENC:
                if op == "r32e" and r != size: self.bad(T, f, "returned size %s instead of %d" % (r, size))
                self.bytes(T, f, T.mem[o.o], self.enc_terms(op, f), "output")
            elif op in DEC: self.dec(T, op, f, r, o)
            else:
                out = [b for c in T.hooks.get("out", ()) for b in c]; want = self.dump_terms(op, f)
                if len(out) != len(want): self.bad(T, f, "%d characters instead of %d" % (len(out), len(want)))
                for i, (x, y) in enumerate(zip(out, want)): self.same(T, f, x, y, "character %d" % i)
    def declen(self, S, op, p, n, f): return {"hexd": (n + 1) // 2, "b64d": n * 3 // 4, "u64d": n * 3 // 4, "b32d": n * 5 // 8, "r32d": n * 5 // 8}[op]
    def group(self, xs, k, al):
        """characters of a partial or full group of bytes (terms)"""
        bits = 8 * len(xs); m = -(-bits // k); v = 0; out = []
        if all(type(x) is int for x in xs): return None
        def bit(j): # j-th bit of the group, most significant first
            if j >= bits: return 0
            x = xs[j // 8]; s = 7 - j % 8
            return x >> s & 1 if type(x) is int else self.dom.extract(x, s, 1)
        for j in range(m):
            c = 0; conc = True
            for t in range(k):
                b = bit(j * k + t)
                if type(b) is int: c = c | b << (k - 1 - t) if type(c) is int else (self.dom.binop(None, "or", 8, c, b << (k - 1 - t)) if b else c)
                else:
                    z = self.dom.cast(None, "zext", 1, 8, b); z = self.dom.binop(None, "shl", 8, z, k - 1 - t) if k - 1 - t else z
                    c = z if type(c) is int and c == 0 else self.dom.binop(None, "or", 8, z, c)
            out.append(al[c] if type(c) is int else self.dom.mk("tab", 8, self.dom.binop(None, "and", 8, c, (1 << k) - 1), tuple(al)))
        return out
    def enc_terms(self, op, f):
        al, k, g, pad = ENC[op]; o = []
        for i in range(0, len(f), g):
            x = f[i:i + g]; r = self.group(x, k, al)
            if r is None: o += ref_enc(op, bytes(x)); continue
            o += r
            if pad: o += [61] * (8 * g // k - len(r))
        return o
    def dump_terms(self, op, f):
        e = "hexu" if op == "dumpu" else "hexl"; o = []
        for i, x in enumerate(f):
            if i: o += ([32] if i % 4 == 0 else []) + ([32] if i % 8 == 0 else []) + ([32] if i % 16 == 0 else []) + ([10] if i % 32 == 0 else [])
            o += self.enc_terms(e, [x])
        return o + [10]
    def bytes(self, T, f, obj, want, what):
        for i, y in enumerate(want): self.same(T, f, self.vm.load_byte(T, obj, i), y, "%s byte %d" % (what, i))
    def same(self, T, f, x, y, what):
        if type(x) is int and type(y) is int:
            if x != y: self.bad(T, f, what + " is wrong")
            return
        self.obl += 1
        m = self.dom.equal(T, x, y, 8)
        if m is True: return
        raise Bad(what + " is wrong", bytes(m.get(v.a[0], 0) if type(v) is Node else v for v in f))
    def bad(self, T, f, what):
        d = self.model(T, f)
        if d is None: raise Unsupported("infeasible path: " + what)
        raise Bad(what, d)
    def dec(self, T, op, f, r, o):
        """the free characters fall into classes; on each combination the result is the specification's"""
        dom = self.dom; al, k, g = DEC[op]
        ok = tuple(int(val(op, c) is not None) for c in range(256))
        free = [i for i, x in enumerate(f) if type(x) is Node]; st = [(T, 0, {})]
        while st:
            U, j, cl = st.pop()
            if j < len(free):
                x = f[free[j]]; any_ = False
                for name, tab in (("valid", ok), ("pad", tuple(int(c == 61) for c in range(256))), ("other", tuple(int(not ok[c] and c != 61) for c in range(256)))):
                    c = dom.icmp(U, "eq", 8, dom.mk("tab", 8, x, tab), 1)
                    if dom.decide(U, c)[0]:
                        V = U.fork(self.vm); dom.assume(V, c, True); st.append((V, j + 1, {**cl, free[j]: name}))
                continue
            t = [x if type(x) is int else {"valid": al[0], "pad": 61, "other": 35 if al is not R32 else 35}[cl[i]] for i, x in enumerate(f)]
            want = ref_dec(op, t); self.obl += 1
            rr = r
            if type(rr) is not int:
                vs = dom.values(U, rr)
                if vs != [len(want)]: self.bad(U, f, "returned size %s instead of %d" % (vs[:3], len(want)))
            elif rr != len(want): self.bad(U, f, "returned size %d instead of %d" % (rr, len(want)))
            for b in range(len(want)):
                y = want[b]; a = b * 8 // k
                # characters that carry this byte
                grp = a // g if op != "hexd" else b; per = g * k // 8; base = (b // per) * g; lo = (b % per) * 8
                cs = f[base + lo // k: base + (lo + 7) // k + 1]
                if any(type(c) is Node for c in cs):
                    bits = []
                    for q in range(lo, lo + 8):
                        c = f[base + q // k]; s = k - 1 - q % k
                        if type(c) is int: bits.append(val(op, c) >> s & 1)
                        else: bits.append(dom.extract(dom.mk("tab", 8, c, tuple((val(op, z) or 0) for z in range(256))), s, 1))
                    y = 0
                    for q, bt in enumerate(bits):
                        if type(bt) is int: z = bt << (7 - q)
                        else: z = dom.cast(None, "zext", 1, 8, bt); z = dom.binop(None, "shl", 8, z, 7 - q) if q < 7 else z
                        if type(z) is int and z == 0: continue
                        y = z if type(y) is int and y == 0 else y | z if type(y) is int and type(z) is int else dom.binop(None, "or", 8, *((y, z) if type(y) is Node else (z, y)))
                self.same(U, f, self.vm.load_byte(U, U.mem[o.o], b), y, "decoded byte %d" % b)

def case_file(path, op, d):
    e = expected(op, d); open(path, "wb").write(b"%s %d %d\n" % (op.encode(), len(d), len(e)) + d + e)
def replay(work, path, huge=False):
    exe = os.path.join(work, "native_big")
    if not os.path.exists(exe):
        src = [os.path.join(d_, f) for d_, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f in ("hex.c", "base32.c", "base64.c", "cleanse.c")]
        subprocess.run([CLANG, *CFLAGS, "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", os.path.join(HERE, "native_big.c"), *src, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=30, env=dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0", UBSAN_OPTIONS="exitcode=99"))
    except subprocess.TimeoutExpired: return 99, "does not end within 30 s"
    return p.returncode, p.stdout[-2000:]
def fails(rc): return rc in (1, 99) or rc < 0

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0}; inp = os.path.join(work, "case.bin"); nr = 0
    try:
        def one(ck, c):
            t1 = time.time(); op, n, pos = c
            def native(d, what):
                case_file(inp, op, d); rc, out = replay(work, inp)
                if fails(rc): res.update(status="violation", note="%s of %d bytes: %s" % (op, n, what), input=inp, output=out, case=[op, n]); return "stop"
                return "unreplayed: %s (%s of %d bytes, native run %s %s)" % (what, op, n, rc, out[-200:])
            try: ck.case(op, n, set(pos))
            except Bad as e: return native(e.data, e.what)
            except Unsupported as e:
                if str(e) != "step bound": raise
                r = native(filler(op, n), "does not end within the step bound")
                if r == "stop": return r
                raise
            if os.environ.get("B58V"): print(c[0], n, "paths", ck.paths, "obl", ck.obl, ck.vm.steps, ck.dom.stats, "%.1f" % (time.time() - t1), flush=True)
        budget(req); ck = drive(res, req["cases"], lambda: Checker(work, req["seed"]), one)
        if res["status"] == "ok":
            for op, n, pos in req["cases"]:
                d = bytearray(filler(op, n)); r = random.Random(req["seed"])
                for i in pos: d[i] = r.choice(DEC[op][0]) if op in DEC else r.randrange(256)
                case_file(inp, op, bytes(d)); rc, out = replay(work, inp); nr += 1; res["native_sample"] = [op, n, rc]
                if fails(rc): res.update(status="violation", note="native sample run fails: " + out[-300:], input=inp, output=out, case=[op, n]); break
        res["native_runs"] = nr; res["stats"] = ck.dom.stats; res["steps"] = ck.vm.steps; res["nodes"] = ck.dom.n; res["paths"] = ck.paths; res["obligations"] = ck.obl + ck.paths
        res["functions"] = sorted(x for x in ck.vm.used)
    except Unsupported as e: res.update(status="unsupported", note=str(e) + traceback.format_exc()[-600:])
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
