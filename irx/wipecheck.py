"""wipecheck.py REQUEST.json RESULT.json : no local buffer or heap block of an operation on
key material still depends on the secret when it is released.
case: {"op": 0..8 (wipe_case.c), "a": argument, "dn": decoded size, "ok": outcome of the
curve operations, "fix": {index: value} fixed bytes}"""
import json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irx
from irx import *
from intdom import *
REPO = irx.REPO
HARNESS = os.path.join(HERE, "wipe_case.c")
def sources(): return [os.path.join(d, f) for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))) for f in sorted(fs) if f.endswith(".c") and "/hash" not in d and f != "random.c"]
def label(v): return type(v) in (V, B)
class WDom(IntDom):
    """values outside the domain become arbitrary ones (only dependence on the secret matters)"""
    def fresh(self, w):
        r = self.concat([self.sym_byte("f") for _ in range((w + 7) // 8)])
        return r if w % 8 == 0 else self.cast(self.vm.vm_state if hasattr(self.vm, "vm_state") else self.vm_state, "trunc", (w + 7) // 8 * 8, w, r)
    def binop(self, S, op, w, a, b, nsw=False):
        try: return super().binop(S, op, w, a, b, nsw)
        except Unsupported: return self.fresh(w)

class Checker:
    def __init__(self, work):
        self.dom = WDom(); self.paths = self.obl = 0
        self.mod = Module(compile_ir(sources() + [os.path.join(HERE, "libc_model.c"), HARNESS], work))
        for n in list(self.mod.funcs):
            if n.startswith("@vf_stub_"): self.mod.funcs["@" + n[9:]] = self.mod.funcs[n]
        self.vm = VM(self.mod, self.dom)
    def case(self, c):
        vm, dom = self.vm, self.dom; S = vm.new_state(); f = dom.facts(S)
        def put(name, v, n): vm.store(S, Ptr(vm.gid["@" + name], 0), v, n)
        put("vf_dn", c.get("dn", 0), 8); put("vf_ok", c.get("ok", 1), 4)
        self.bytes = []
        for i in range(320):
            v = c.get("fix", {}).get(str(i))
            if v is None and c["op"] in (1, 3) and i >= c["dn"]: v = 0
            if v is None:
                b = dom.sym_byte("s%d" % i); f.model[b.var.id] = 0x41; v = b
            self.bytes.append(v); vm.store(S, Ptr(vm.gid["@vf_sec"], i), v, 1)
        def chk(S, o, where):
            self.obl += 1
            n = sum(w for v, w in o.cells.values() if label(v))
            if n >= 8: raise Bug("%d bytes of %s still depend on the secret when it is released in %s" % (n, o.name or o.kind, where))
        S.hooks["free"] = lambda S, oid: chk(S, S.mem[oid], vm.where(S))
        def leave(S, fr, oid):
            if not fr.fn.name.startswith("@vf_"): chk(S, S.mem[oid], fr.fn.name[1:])
        S.hooks["leave"] = leave
        vm.call(S, "vf_case", [c["op"], c["a"]])
        for T in vm.run(S):
            self.paths += 1
            if T.result[0] == "ret": continue
            m = dom.solve(T, [], 60000)
            if m is None: continue
            f = dom.facts(T); one, two = bytearray(), bytearray()
            for b in self.bytes:
                if type(b) is int: one.append(b); two.append(b); continue
                s = f.sets.get(b.var.id); v = m.get(b.var.id, 0)
                if s is not None and v not in s: v = min(s)
                w = [x for x in (v ^ 0x55, v ^ 1, v ^ 0xff) if s is None or x in s] or (list(s) if s else [v])
                one.append(v); two.append(w[0])
            return T.result[1], bytes(one), bytes(two)
        return None

def write(path, c, one, two):
    open(path, "wb").write(b"%d %d %d %d\n" % (c["op"], c["a"], c.get("dn", 0), c.get("ok", 1)) + one + two)
def replay(work, path, huge=False):
    exe = os.path.join(work, "native_wipe"); objs = []; srcs = sources()
    for i, s in enumerate([] if os.path.exists(exe) else srcs + [HARNESS, os.path.join(HERE, "native_wipe.c")]):
        o = os.path.join(work, "w%d.o" % i); objs.append(o)
        ren = ["-Dmalloc=vf_malloc", "-Dfree=vf_free", "-Dcalloc=vf_calloc"] if i < len(srcs) else ["-DNATIVE"]
        subprocess.run([CLANG, *CFLAGS, "-g", "-O0", *ren, "-c", s, "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if i < len(srcs): subprocess.run([LLVM + "llvm-objcopy", "--weaken", o], check=True, stderr=subprocess.PIPE)
    if objs: subprocess.run([CLANG, "-Wl,-z,now", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", *objs, "-o", exe], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=100)
    return p.returncode, p.stdout[-2000:]
def fails(rc): return rc == 1 or rc < 0

def main():
    req = json.load(open(sys.argv[1])); work = req["work"]; t0 = time.time()
    res = {"status": "ok", "note": "", "done": 0}
    try:
        inp = os.path.join(work, "case.bin")
        def one_(ck, c):
            r = ck.case(c)
            if r is None: return None
            what, one, two = r; write(inp, c, one, two); rc, out = replay(work, inp)
            if not fails(rc): return "unreplayed: %s (native run: %s %s)" % (what, rc, out[-300:])
            res.update(status="violation", note=what, input=inp, output=out, case=c); return "stop"
        budget(req); ck = drive(res, req["cases"], lambda: Checker(work), one_)
        if res["status"] == "ok":
            n = 0
            for c in req["cases"][::4]:
                rnd = random.Random(req["seed"]); one = bytes(rnd.randrange(256) for _ in range(320)); two = bytes(rnd.randrange(256) for _ in range(320))
                fx = c.get("fix", {}); one, two = (bytes(fx.get(str(i), x[i]) for i in range(320)) for x in (one, two))
                write(inp, c, one, two); rc, out = replay(work, inp); n += 1
                res["native_sample"] = [c, one.hex(), rc]
                if fails(rc): res.update(status="violation", note="native sample run fails", input=inp, output=out, case=c); break
            res["native_runs"] = n
        res["stats"] = ck.dom.stats; res["steps"] = ck.vm.steps; res["nodes"] = ck.dom.nterms; res["paths"] = ck.paths; res["obligations"] = ck.obl; res["functions"] = sorted(x for x in ck.vm.used if not x.startswith("vf_"))
    except Unsupported as e: res.update(status="unsupported", note=str(e) + traceback.format_exc()[-600:])
    except Exception: res.update(status="broken", note=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))
if __name__ == "__main__": main()
