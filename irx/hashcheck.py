"""hashcheck.py REQUEST.json RESULT.json : decides hash cases symbolically.
request: {"cases": [[step, ...], ...]}; step = [op, klen, mlen, align]; steps of one
case run one after the other in the same program state."""
import hashlib, hmac as HM, json, os, random, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irx
from irx import *
from bvdom import BV, Node
import hspec

REPO = irx.REPO
FN = {"sha1": "fingera_sha1", "sha256": "fingera_sha2_256", "sha512": "fingera_sha2_512", "rmd160": "fingera_ripemd160", "hmac256": "fingera_hmac_sha256",
      "hmac512": "fingera_hmac_sha512", "hash160": "fingera_btc_hash160", "hash256": "fingera_btc_hash256", "d64": "fingera_btc_hash256_d64", "bip32": "fingera_btc_bip32_hash"}
def spec(A, op, key, msg):
    if op == "sha1": return hspec.sha1(A, msg)
    if op == "sha256": return hspec.sha256(A, msg)
    if op == "sha512": return hspec.sha512(A, msg)
    if op == "rmd160": return hspec.rmd160(A, msg)
    if op == "hmac256": return hspec.hmac(A, hspec.sha256, 64, key, msg)
    if op == "hmac512": return hspec.hmac(A, hspec.sha512, 128, key, msg)
    if op == "hash160": return hspec.hash160(A, msg)
    if op == "hash256": return hspec.hash256(A, msg)
    if op == "d64": return [b for i in range(0, len(msg), 64) for b in hspec.hash256(A, msg[i:i + 64])]
    if op == "bip32":   # message = header, 32 data bytes, child number little endian
        return hspec.hmac(A, hspec.sha512, 128, key, msg[:33] + list(reversed(msg[33:37])))
def concrete(op, key, msg):
    """independent reference for replays (hashlib where it has the function)"""
    h = lambda n, m: hashlib.new(n, m).digest()
    bv = BV(); A = hspec.W(bv)
    if op in ("sha1", "sha256", "sha512"): return h(op, msg)
    if op == "hmac256": return HM.new(key, msg, "sha256").digest()
    if op == "hmac512": return HM.new(key, msg, "sha512").digest()
    if op == "hash256": return h("sha256", h("sha256", msg))
    if op == "d64": return b"".join(h("sha256", h("sha256", msg[i:i + 64])) for i in range(0, len(msg), 64))
    return bytes(spec(A, op, list(key), list(msg)))
def dlen(op, ml):
    return {"sha1": 20, "sha256": 32, "sha512": 64, "rmd160": 20, "hmac256": 32, "hmac512": 64, "hash160": 20, "hash256": 32, "bip32": 64}.get(op) or ml // 2

def validate_spec(seed):
    """the specification itself against Python's hashlib / hmac"""
    r = random.Random(seed); bv = BV(); A = hspec.W(bv); n = 0
    for l in (0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 128, 200):
        m = r.randbytes(l); k = r.randbytes(l)
        for op in FN:
            if op == "bip32": continue
            mm = m[:l // 64 * 64] if op == "d64" else m
            ref = hashlib.new("ripemd160", mm).digest() if op == "rmd160" else hashlib.new("ripemd160", hashlib.sha256(mm).digest()).digest() if op == "hash160" else concrete(op, k, mm)
            if bytes(spec(A, op, list(k), list(mm))) != ref: raise SystemExit("specification of %s is wrong" % op)
            n += 1
    return n

class Checker:
    def __init__(self, work, seed):
        self.work = work; self.seed = seed; self.bv = BV(seed); self.A = hspec.W(self.bv)
        srcs = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                if f.endswith(".c"): srcs.append(os.path.join(d, f))
        srcs = [s for s in sorted(srcs) if "/hash" in s or s.endswith("cleanse.c")]
        self.mod = Module(compile_ir(srcs + [os.path.join(HERE, "libc_model.c")], work))
        self.vm = VM(self.mod, self.bv)
        self.paths = 0
    def args(self, S, st, i):
        op, kl, ml, al = st; vm, bv = self.vm, self.bv
        def buf(name, n, ro=True, align=0):
            p = vm.alloc(S, n, "heap", name, align=align); o = S.mem[p.o]
            # of a long batch a few blocks are arbitrary, the others zero
            few = op == "d64" and n > 6400
            ss = [0 if few and k // 64 not in (0, 1, 127, 254, 255, 256, 257, n // 64 - 1) else bv.sym("%s%d_%d" % (name, i, k)) for k in range(n)]
            for k, x in enumerate(ss): o.cells[k] = (x, 1)
            o.ro = ro
            return p, ss
        key, ks = buf("key", kl)
        msg, ms = buf("message", ml, align=al)
        out = vm.alloc(S, dlen(op, ml), "heap", "digest")
        if op in ("hmac256", "hmac512"): a = [key, kl, msg, ml, out]
        elif op == "d64": a = [out, msg, ml // 64]
        elif op == "bip32":
            data = vm.alloc(S, 32, "heap", "data")
            for k in range(32): S.mem[data.o].cells[k] = (ms[1 + k], 1)
            a = [key, bv.concat(ms[33:37]), ms[0], data, out]
        else: a = [msg, ml, out]
        return a, out, ks, ms
    def case(self, steps):
        """None, or (what, assignment)"""
        vm, bv = self.vm, self.bv
        S = vm.new_state()
        live = [S]
        for i, st in enumerate(steps):
            op, kl, ml, al = st
            nxt = []
            for S in live:
                a, out, ks, ms = self.args(S, st, i)
                want = spec(self.A, op, ks, ms)
                for x in want:
                    if type(x) is Node: bv.mark_spec(x)
                vm.call(S, FN[op], a)
                for T in vm.run(S):
                    self.paths += 1
                    if T.result[0] != "ret": return self.bad("%s: %s" % (op, T.result[1]), steps, T)
                    if T.hooks.get("live"): return self.bad("%s: memory leak" % op, steps, T)
                    o = T.mem[out.o]
                    try: got = [vm.load_byte(T, o, k) for k in range(len(want))]
                    except Bug as e: return self.bad("%s: %s" % (op, e), steps, T)
                    if differ(bv, T, got, want): return self.bad("%s of %d bytes: the digest differs from the standard" % (op, ml), steps, T, (got, want))
                    rep = bv.sweep(got)
                    for k, (x, y) in enumerate(zip(rep, want)):
                        if x is y or (type(x) is int and type(y) is int and x == y): continue
                        if type(x) is Node and type(y) is Node and bv.prove(x, y, (6, 12, 25), 10000): continue
                        return self.bad("%s of %d bytes: digest byte %d differs from the standard" % (op, ml, k), steps, T, (got, want))
                    nxt.append(T)
            live = nxt
        return None
    def bad(self, what, steps, T, diff=None):
        """concrete inputs for the failure: samples, then models of the path condition"""
        import z3
        envs = []
        pc = T.facts or []
        names = ["%s%d_%d" % (nm, i, k) for i, st in enumerate(steps) for nm, n in (("key", st[1]), ("message", st[2])) for k in range(n)]
        syms = [self.bv.sym(n) for n in names]
        for k in range(len(syms[0].sig) if syms else 1):
            envs.append({n: s.sig[k] for n, s in zip(names, syms)})
        if pc:
            s = z3.Solver(); s.set("timeout", 60000); memo = {}
            for c, v in pc: s.add(self.bv.to_z3(c, None, memo) == v)
            if s.check() == z3.sat:
                m = s.model(); r = random.Random(7); e = {}
                for n, sy in zip(names, syms):
                    x = m[z3.BitVec("v%d" % sy.id, 8)]
                    e[n] = x.as_long() if x is not None else r.randrange(256)
                envs.insert(0, e)
        for e in envs:
            if all(self.bv.evaluate(c, e) == v for c, v in pc):
                if diff is None: return what, e
                if [self.bv.evaluate(x, e) for x in diff[0]] != [self.bv.evaluate(x, e) for x in diff[1]]: return what, e
        return what, None

def case_file(path, steps, env, zero=False):
    with open(path, "wb") as f:
        for i, (op, kl, ml, al) in enumerate(steps):
            key = bytes(env.get("key%d_%d" % (i, k), 0) for k in range(kl))
            if zero:
                f.write(("%s %d %d 1 %d 0\n" % (op, kl, ml, dlen(op, ml))).encode()); f.write(key)
                d = huge_digest(op, key, ml)
            else:
                msg = bytes(env.get("message%d_%d" % (i, k), 0) for k in range(ml))
                f.write(("%s %d %d 0 %d %d\n" % (op, kl, ml, dlen(op, ml), al)).encode()); f.write(key); f.write(msg)
                d = concrete(op, key, msg)
            f.write(d); f.write(b"\n")

def huge_digest(op, key, n):
    z = bytes(1 << 20)
    def feed(h):
        k = n
        while k: c = min(k, len(z)); h.update(z[:c]); k -= c
        return h.digest()
    if op == "rmd160": return feed(hashlib.new("ripemd160"))
    if op == "hmac256": return feed(HM.new(key, b"", "sha256"))
    if op == "hmac512": return feed(HM.new(key, b"", "sha512"))
    if op == "hash256": return hashlib.sha256(feed(hashlib.sha256())).digest()
    return feed(hashlib.new(op))

def replay(work, path, huge=False):
    exe = os.path.join(work, "native_hash")
    srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith(".c") and ("/hash" in os.path.join(d, f) or f == "cleanse.c")]
    opt = ["-O2", "-fno-strict-aliasing"] if huge else ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow", "-fno-sanitize-recover=all"]
    subprocess.run([CLANG, *CFLAGS, *opt, os.path.join(HERE, "native_hash.c"), *srcs, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99"))
    return p.returncode, p.stdout[-3000:]

# ------------------------------------------------------------- very long messages
class Long:
    """message lengths far beyond what can be executed block by block: after the
    first blocks the chaining value is generalised to an arbitrary one and the loop
    fast-forwarded to the last blocks (same path, induction variables advanced)."""
    BL = {"sha1": 64, "sha256": 64, "sha512": 128, "rmd160": 64, "hmac256": 64, "hmac512": 128, "hash256": 64}
    def __init__(self, ck): self.ck = ck
    def case(self, op, klen, mlen):
        ck = self.ck; vm, bv, A = ck.vm, ck.bv, ck.A; B = self.BL[op]
        S = vm.new_state()
        key = vm.alloc(S, klen, "heap", "key"); ks = [bv.sym("key0_%d" % k) for k in range(klen)]
        for k, x in enumerate(ks): S.mem[key.o].cells[k] = (x, 1)
        msg = vm.alloc(S, mlen, "heap", "message", default=lambda f: bv.sym("message0_%d" % f)); S.mem[msg.o].ro = True
        out = vm.alloc(S, dlen(op, mlen), "heap", "digest")
        w = 64 if op in ("sha512", "hmac512") else 32
        def block(s, b): return {"sha1": lambda: hspec.sha1_block(A, s, b), "rmd160": lambda: hspec.rmd_block(A, s, b)}.get(op, lambda: hspec.sha2_block(A, w, s, b))()
        iv = hspec.IV160 if op in ("sha1", "rmd160") else hspec.IV512 if w == 64 else hspec.IV256
        H = {"hmac256": hspec.sha256, "hmac512": hspec.sha512}.get(op)
        if H:
            kk = list(ks) if klen <= B else H(A, ks)
            kk = kk + [0] * (B - len(kk)); x = lambda c: [bv.binop(None, "xor", 8, b, c) if type(b) is Node else b ^ c for b in kk]
            s = block(list(iv), x(0x36)); pre = B
        else: s = list(iv); pre = 0
        chain = [s]
        m = lambda i, n: [bv.sym("message0_%d" % k) for k in range(i, i + n)]
        for i in range(3): s = block(s, m(i * B, B)); chain.append(s)
        for c in chain:
            for y in c:
                if type(y) is Node: bv.mark_spec(y)
        # fast-forward: at most once, seen at a loop header
        nb = mlen // B; keep = 2
        fresh = [bv.sym("chain%d" % i, w) for i in range(len(s))]
        done = [None]; visits = {}
        def hook(fr, dst, S):
            """called at loop headers"""
            if done[0] is not None: return
            kx = (len(S.stack), id(fr.fn), dst)
            mem = {(o, k): c for o, ob in S.mem.items() if ob is not None and ob.alive and o != msg.o for k, c in ob.cells.items()}
            v = visits.setdefault(kx, []); v.append((list(fr.R), mem))
            if len(v) < 3: return
            (r0, m0), (r1, m1), (r2, m2) = v[-3:]
            st = []
            for i, (a, b, c) in enumerate(zip(r0, r1, r2)):
                if type(a) is int and type(b) is int and type(c) is int:
                    if (b - a) & MASK[64] != (c - b) & MASK[64]: return
                    if a != b: st.append((i, "i", sgn((b - a) & MASK[64], 64)))
                elif type(a) is Ptr and type(b) is Ptr and type(c) is Ptr and a.o == b.o == c.o:
                    if b.f - a.f != c.f - b.f: return
                    if a.f != b.f: st.append((i, "p", b.f - a.f))
            adv = [d for i, k, d in st if k == "p" and abs(d) == B and r2[i].o == msg.o] or [d for i, k, d in st if abs(d) == B]
            if not st or not adv: 
                # an index counted in blocks or bytes
                if not any(k == "i" and abs(d) in (1, B) for i, k, d in st): return
            # which chaining value is in memory now
            repl = {}
            for cell, c in m2.items():
                if type(c[0]) is Node and m1.get(cell, (None,))[0] is not c[0]:
                    r = bv.sweep([c[0]])[0]
                    for t, ch in enumerate(chain):
                        for j, y in enumerate(ch):
                            if r is y: repl.setdefault(cell, (t, j, c[1]))
                elif type(c[0]) is int and m1.get(cell) != c: return     # other changing memory: no
            ts = {t for t, j, _ in repl.values()}
            if len(ts) != 1 or {j for t, j, _ in repl.values()} != set(range(len(fresh))): return
            t = ts.pop(); jump = nb - keep - t
            if jump <= 0: return
            for i, k, d in st:
                x = fr.R[i]
                fr.R[i] = (x + d * jump) & MASK[64] if k == "i" else Ptr(x.o, x.f + d * jump)
            for (o, k), (t_, j, n) in repl.items(): vm.own(S, o).cells[k] = (fresh[j], n)
            for cell, c in list(m2.items()):
                # memory that changed and is not the chaining value is unknown after the jump
                if cell not in repl and type(c[0]) is Node and m1.get(cell, (None,))[0] is not c[0]: vm.own(S, cell[0]).cells.pop(cell[1], None)
            done[0] = t + jump
        vm.header_hook = hook
        a = [key, klen, msg, mlen, out] if H else [msg, mlen, out]
        vm.call(S, FN[op], a)
        vm.maxsteps = 3_000_000
        try: sts = list(vm.run(S))
        except Unsupported as e: return ("unexplored", str(e))
        finally: vm.header_hook = None; vm.maxsteps = 1 << 62
        if done[0] is None:
            bugs = [T for T in sts if T.result[0] != "ret"]
            if bugs: return ("bad", "%s of %d bytes: %s" % (op, mlen, bugs[0].result[1]))
            # finished without walking over the message
            return ("bad", "%s of %d bytes: the message is not processed block by block to its end" % (op, mlen))
        s = fresh; i = done[0] * B
        rest = m(i, mlen - i)
        L = 8 if B == 64 else 16
        z = (-(mlen + pre + 1 + L)) % B
        data = rest + [0x80] + [0] * z + list(((mlen + pre) * 8).to_bytes(L, "little" if op == "rmd160" else "big"))
        for k in range(0, len(data), B): s = block(s, data[k:k + B])
        o = A.bytes_le if op == "rmd160" else A.bytes_be
        want = [b for x_ in s for b in o(w, x_)]
        if op == "hash256": want = hspec.sha256(A, want)
        if H: want = self.outer(A, block, iv, x(0x5c), want, B)
        for y in want:
            if type(y) is Node: bv.mark_spec(y)
        for T in sts:
            if T.result[0] != "ret": return ("bad", "%s of %d bytes: %s" % (op, mlen, T.result[1]))
            got = [vm.load_byte(T, T.mem[out.o], k) for k in range(len(want))]
            if differ(bv, T, got, want): return ("bad", "%s of %d bytes: the digest differs from the standard" % (op, mlen))
            for k, (g, y) in enumerate(zip(bv.sweep(got), want)):
                if g is y or (type(g) is int and g == y): continue
                return ("bad", "%s of %d bytes: digest byte %d differs from the standard" % (op, mlen, k))
        return ("ok", "")
    def outer(self, A, block, iv, opad, inner, B):
        s = block(list(iv), opad)
        data = inner + [0x80]; L = 8 if B == 64 else 16
        tot = B + len(inner); data += [0] * ((-(tot + 1 + L)) % B) + list((tot * 8).to_bytes(L, "big"))
        for k in range(0, len(data), B): s = block(s, data[k:k + B])
        return [b for x in s for b in A.bytes_be(32 if B == 64 else 64, x)]

def differ(bv, T, got, want):
    """some sample assignment of the path already tells the terms apart"""
    v = lambda x, k: x.sig[k] if type(x) is Node else x
    n = next((len(x.sig) for x in got + want if type(x) is Node), 1)
    for k in range(n):
        if all(v(c, k) == r for c, r in (T.facts or [])) and any(v(x, k) != v(y, k) for x, y in zip(got, want)): return True
    return False

def fails(rc): return rc in (1, 99) or rc < 0

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0, "validated": 0}
    try:
        res["validated"] = validate_spec(req["seed"])
        def one(ck, st):
            r = ck.case(st)
            if r is None: return None
            what, env = r
            inp = os.path.join(work, "case.bin")
            if env is None: return "unreplayed: " + what
            case_file(inp, st, env); rc, out = replay(work, inp)
            if not fails(rc): return "unreplayed: " + what + " (native run: %s %s)" % (rc, out[-300:])
            res.update(status="violation", note=what, input=inp, output=out, case=st); return "stop"
        budget(req); ck = drive(res, req["cases"], lambda: Checker(work, req["seed"]), one)
        if res["status"] == "ok" and not res.get("late"):
            lg = Long(ck)
            for op, kl, ml in req.get("long", []):
                k, what = lg.case(op, kl, ml)
                if k == "ok": res["done"] += 1; continue
                if k == "unexplored": res.setdefault("unexplored", []).append([op, kl, ml, what]); continue
                inp = os.path.join(work, "case.bin"); st = [[op, kl, ml, 0]]
                case_file(inp, st, {"key0_%d" % i: (i * 7 + 1) & 255 for i in range(kl)}, True)
                rc, out = replay(work, inp, True)
                if not fails(rc):
                    res.setdefault("unexplored", []).append([op, kl, ml, what + " (native run passes)"]); continue
                res.update(status="violation", note=what, input=inp, output=out, case=st, huge=True); break
        # a sample: one executed case natively
        if res["status"] == "ok" and req["cases"]:
            r = random.Random(req["seed"]); st = req["cases"][-1]; inp = os.path.join(work, "sample.bin")
            env = {"%s%d_%d" % (nm, i, k): r.randrange(256) for i, s in enumerate(st) for nm, n in (("key", s[1]), ("message", s[2])) for k in range(n)}
            case_file(inp, st, env); rc, out = replay(work, inp)
            res["native_sample"] = [st, rc]
            if fails(rc): res.update(status="violation", note="native sample run fails", input=inp, output=out, case=st)
        res["stats"] = ck.bv.stats; res["steps"] = ck.vm.steps; res["nodes"] = ck.bv.n; res["paths"] = ck.paths; res["lemmas"] = len(ck.bv.lemmas)
        res["functions"] = sorted(ck.vm.used)
    except Unsupported as e: res.update(status="unsupported", note=str(e))
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
