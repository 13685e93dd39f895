"""purecheck.py REQUEST.json RESULT.json : results depend on the arguments only.
case: {"op": F, "n": input size, "text": 1 with stand-in text codecs, "cls": [lo, hi] byte range}.
First: on every path F leaves every variable of static storage duration, and its input, as
it found them, so a later call runs from the same state.  Where F does change such a
variable, histories F(a) G(c) F(b) F(a) are executed and every result is compared with the
result of the same call made first."""
import json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irx
from irx import *
from pdom import *
from merge import MVM
REPO = irx.REPO
HARNESS = os.path.join(HERE, "pure_case.c")
GROUPS = [[1, 101, 2], [3, 4, 5, 6], [7, 8, 9, 10], [13, 14, 15, 16], [17, 18], [19, 20], [21, 22, 23, 24, 25, 35], [26, 27, 28, 36], [29, 30, 31, 32, 33, 34, 37, 38, 39], list(range(40, 52))]
def sources(): return [os.path.join(d, f) for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f.endswith(".c") and "/hash" not in d and f != "random.c"]
def group(f): return next((g for g in GROUPS if f in g), [f])
class Violation(Exception):
    def __init__(self, what, case, G, a, b, c): self.what, self.case, self.G, self.a, self.b, self.c = what, case, G, a, b, c

class Checker:
    def __init__(self, work, text):
        self.dom = PDom(); self.paths = self.obl = self.ended = 0; self.changed = []
        d = os.path.join(work, "ir%d" % text); os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "pure_case_t.c"); open(h, "w").write(("#define STUB_TEXT\n" if text else "") + '#include "%s"\n' % HARNESS)
        self.mod = Module(compile_ir(sources() + [os.path.join(HERE, "libc_model.c"), h], d))
        for n in list(self.mod.funcs):
            if n.startswith("@vf_stub_"): self.mod.funcs["@" + n[9:]] = self.mod.funcs[n]
        self.vm = MVM(self.mod, self.dom); self.vm.check_nsw = False
        S = self.vm.new_state(); self.vm.call(S, "vf_init", []); r = list(self.vm.run(S))
        if len(r) != 1 or r[0].result[0] != "ret": raise Unsupported("initialisation: %s" % (r and r[0].result,))
        self.S0 = r[0]
    def arr(self, S, name, n, lo, hi):
        p = self.vm.alloc(S, n, "heap", name); bs = []
        for i in range(n):
            b = self.dom.sym("%s%d" % (name, i)); S.mem[p.o].cells[i] = (b, 1); bs.append(b)
            if (lo, hi) != (0, 255):
                self.dom.assume(S, self.dom.icmp(S, "uge", 8, b, lo), True); self.dom.assume(S, self.dom.icmp(S, "ule", 8, b, hi), True)
        return p, bs
    def call(self, S, F, p, n):
        """all returning paths of F: (state, result size, output)"""
        o = self.vm.alloc(S, 600, "heap", "out"); S.result = None; S.stack = []
        keep = self.vm.work if hasattr(self.vm, "work") else []
        self.vm.call(S, "vf_op", [F, p, n, o]); rs = list(self.vm.run(S)); self.vm.work = keep
        for T in rs:
            self.paths += 1
            if T.result[0] != "ret": self.ended += 1; continue
            yield T, T.result[1], o
    def differs(self, T, oid, base):
        """does object oid differ from its copy `base`?"""
        x = T.mem[oid]
        if x is base or x.size is None: return False
        if x.alive != base.alive or x.size != base.size: return True
        if x.cells == base.cells: return False
        for f in range(x.size):
            c, d = x.cells.get(f), base.cells.get(f)
            if c is not None and d is not None and c[1] == d[1] and (c[0] is d[0] or type(c[0]) is type(d[0]) is int and c[0] == d[0] or type(c[0]) is type(d[0]) is Ptr and (c[0].o, c[0].f) == (d[0].o, d[0].f)): continue
            if type((c or (0,))[0]) is Ptr or type((d or (0,))[0]) is Ptr: return True
            if c is None and d is None: 
                u, v = next(((z.cells[f - k], k) for k in range(1, 16) for z in (x,) if f - k in z.cells and z.cells[f - k][1] > k), (None, 0))
                if u is None or type(u[0]) is Ptr: continue
            self.obl += 1
            if self.dom.equal(T, self.vm.load_byte(T, x, f), self.vm.load_byte(T, base, f), 8) is not True: return True
        return False
    def case(self, c):
        F, n = c["op"], c["n"]; lo, hi = c.get("cls", (0, 255))
        S = self.S0.fork(self.vm); p, bs = self.arr(S, "a", n, lo, hi); touched = None
        for T, r, o in self.call(S, F, p, n):
            self.obl += 2
            for i, b in enumerate(bs):
                v = self.vm.load_byte(T, T.mem[p.o], i)
                if v is not b and self.dom.equal(T, v, b, 8) is not True:
                    m = self.dom.check_any(T); m = {} if m is True else m
                    a = bytes(m.get("a%d" % k, lo) for k in range(n)); raise Violation("the input is changed", c, 0, a, a, b"")
            for g, oid in self.vm.gid.items():
                if self.differs(T, oid, self.S0.mem[oid]): touched = g; break
            if touched: break
        if touched:
            self.changed.append("%s by %d" % (touched, F))
            self.history(c)
    def history(self, c):
        F, n = c["op"], c["n"]; lo, hi = c.get("cls", (0, 255)); vm, dom = self.vm, self.dom
        for G in [0] + [g for g in group(F)]:
            S = self.S0.fork(vm)
            p, a = self.arr(S, "a", n, lo, hi); q, _ = self.arr(S, "a", n, 0, 255); q2, _ = self.arr(S, "a", n, 0, 255); r2, b = self.arr(S, "b", n, lo, hi); m = c.get("m", n); pc, cc = self.arr(S, "c", m, 0, 255)
            t0 = time.time()
            for T1, x1, o1 in self.call(S, F, p, n):
                for T2, _, _ in (self.call(T1, G, pc, m) if G else [(T1, 0, 0)]):
                    for i in range(n): vm.store(T2, Ptr(p.o, i), b[i], 1)
                    for T3, x3, o3 in self.call(T2, F, p, n):
                        for T4, x4, o4 in self.call(T3, F, q, n):
                            for oid in vm.gid.values(): T4.mem[oid] = self.S0.mem[oid]
                            for T5, y4, z4 in self.call(T4, F, q2, n):
                                for oid in vm.gid.values(): T5.mem[oid] = self.S0.mem[oid]
                                for T6, y3, z3 in self.call(T5, F, r2, n):
                                    self.compare(T6, c, G, m, x4, o4, y4, z4); self.compare(T6, c, G, m, x3, o3, y3, z3); self.compare(T6, c, G, m, x1, o1, y4, z4)
                    if time.time() - t0 > 200: raise Unsupported("the operation changes static data; the histories are too many to decide")
    def compare(self, T, c, G, m, x, ox, y, oy):
        dom, vm = self.dom, self.vm; self.obl += 1
        bad = dom.equal(T, x, y, 64)
        if bad is True:
            k = dom.concretise(T, x) if type(x) is not int else x
            for i in range(k):
                u, v = vm.load_byte(T, T.mem[ox.o], i), vm.load_byte(T, T.mem[oy.o], i)
                if u is v or u == v: continue
                bad = dom.equal(T, u, v, 8)
                if bad is not True: break
        if bad is not True:
            g = lambda nm, k: bytes(bad.get("%s%d" % (nm, i), 0) for i in range(k))
            raise Violation("the result depends on earlier calls", c, G, g("a", c["n"]), g("b", c["n"]), g("c", m))

def write(path, F, n, G, a, b, c, text): open(path, "wb").write(b"%d %d %d %d\n" % (F, n, G, len(c)) + a + b + c); open(path + ".text", "w").write(str(text))
def replay(work, path, huge=False):
    text = "1"
    for q in (path + ".text",):
        if os.path.exists(q): text = open(q).read()
    cx = os.path.join(os.path.dirname(path), "counterexample.json")
    if os.path.exists(cx): text = str(int(bool((json.load(open(cx)).get("case") or {}).get("text"))))
    exe = os.path.join(work, "native_pure" + text)
    if not os.path.exists(exe):
        objs = []; srcs = sources()
        for i, s in enumerate(srcs + [HARNESS, os.path.join(HERE, "native_pure.c")]):
            o = os.path.join(work, "p%s_%d.o" % (text, i)); objs.append(o)
            subprocess.run([CLANG, *CFLAGS, "-g", "-O0", *([] if i < len(srcs) else ["-DNATIVE"] + (["-DSTUB_TEXT"] if text == "1" else [])), "-c", s, "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if i < len(srcs): subprocess.run([LLVM + "llvm-objcopy", "--weaken", o], check=True, stderr=subprocess.PIPE)
        subprocess.run([CLANG, "-Wl,--unresolved-symbols=ignore-all", "-no-pie", *objs, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=100)
    return p.returncode, p.stdout[-2000:]
def fails(rc): return rc == 1

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0}; cks = {}
    try:
        inp = os.path.join(work, "case.bin"); nr = 0
        def one(_, c):
            t = int(bool(c.get("text"))); ck = cks.get(t)
            if ck is None: ck = cks[t] = Checker(work, t)
            t1 = time.time()
            try: ck.case(c)
            except Unsupported: del cks[t]; raise
            except Violation as e:
                write(inp, e.case["op"], e.case["n"], e.G, e.a, e.b, e.c, t); rc, out = replay(work, inp)
                if fails(rc): res.update(status="violation", note="%s (operation %d)" % (e.what, e.case["op"]), input=inp, output=out, case=c); return "stop"
                return "unreplayed: %s (operation %d; native run: %s %s)" % (e.what, e.case["op"], rc, out[-200:])
            if os.environ.get("B58V"): print(c, "paths", ck.paths, "obl", ck.obl, ck.dom.stats, "%.1f" % (time.time() - t1), flush=True)
        budget(req); drive(res, req["cases"], lambda: True, one)
        if res["status"] == "ok":
            for c in req["cases"]:
                t = int(bool(c.get("text"))); rnd = random.Random(req["seed"]); lo, hi = c.get("cls", (0, 255)); G = rnd.choice(group(c["op"]))
                if G != c["op"] and not any(x["op"] == G and x["n"] == c["n"] for x in req["cases"]): G = c["op"]
                r = lambda: bytes(rnd.randrange(lo, hi + 1) for _ in range(c["n"]))
                write(inp, c["op"], c["n"], G, r(), r(), r(), t); rc, out = replay(work, inp); nr += 1; res["native_sample"] = [c, rc]
                if fails(rc): res.update(status="violation", note="native sample run fails", input=inp, output=out, case=c); break
        K = list(cks.values()); res["native_runs"] = nr
        st = {}
        for k in K:
            for a, b in k.dom.stats.items(): st[a] = st.get(a, 0) + b
        res["stats"] = st; res["steps"] = sum(k.vm.steps for k in K); res["nodes"] = sum(k.dom.n for k in K); res["paths"] = sum(k.paths for k in K); res["obligations"] = sum(k.obl for k in K)
        res["functions"] = sorted({x for k in K for x in k.vm.used if not x.startswith("vf_")})
        ch = [x for k in K for x in k.changed]
        if ch and res["status"] == "ok": res["note"] = "static data changed (histories compared): " + ", ".join(ch)
    except Unsupported as e: res.update(status="unsupported", note=str(e) + traceback.format_exc()[-600:])
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
