"""CBMC engine: compiles /repo's current sources with goto-cc, links a harness,
decides every assertion with CBMC's SAT back end, and replays counterexamples
natively (clang, ASan + UBSan) before anything is reported."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, resource, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = next((c for c in ("/usr/bin/clang-18", "/usr/bin/clang") if os.path.exists(c)), "clang")
GOTOCC = shutil.which("goto-cc") or "/usr/local/bin/goto-cc"
CBMC = shutil.which("cbmc") or "/usr/local/bin/cbmc"
GI = shutil.which("goto-instrument") or "/usr/local/bin/goto-instrument"
OBJCOPY = shutil.which("objcopy") or "/usr/bin/objcopy"
MEM = 9 << 30

class Job:
    """One CBMC query set.  defs: -D for the harness; unwind: bound for library
    loops (checked by unwinding assertions); replace: library function -> stub;
    rename: libc names renamed in the library only (-D); models: extra C files."""
    def __init__(self, name, harness, defs=None, unwind=600, hunwind=1200, replace=None, rename=None,
                 models=(), timeout=300, bounds="", solver=None, objbits=None, extra=(), unwindset=None,
                 weight=1, leak=False, expect_reach=True, libdefs=(), cunwind=None):
        self.name, self.harness, self.defs = name, harness, dict(defs or {})
        self.unwind, self.hunwind = unwind, hunwind
        self.replace, self.rename = dict(replace or {}), dict(rename or {})
        self.models, self.timeout, self.bounds = tuple(models), timeout, bounds
        self.solver, self.objbits, self.extra = solver, objbits, tuple(extra)
        self.unwindset = dict(unwindset or {})
        self.weight, self.leak, self.expect_reach = weight, leak, expect_reach
        self.libdefs = tuple(libdefs)
        self.cunwind = cunwind or unwind   # loops inside C library models

class Broken(Exception):
    """the machinery could not give an answer"""

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()

procs = set(); plock = threading.Lock(); stopping = threading.Event()

def run(cmd, timeout, mem=True, **kw):
    if stopping.is_set():
        return None, "", "stopped"
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         preexec_fn=limits if mem else os.setsid, **kw)
    with plock: procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        if stopping.is_set() and p.returncode < 0: return None, "", "stopped"
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, "", "timeout"
    finally:
        with plock: procs.discard(p)

def stop_all():
    stopping.set()
    with plock:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".c"): out.append(os.path.join(d, f))
    return sorted(out)

CFLAGS = ["-std=gnu99", "-I" + os.path.join(REPO, "include"), "-D__NO_CTYPE", "-w"]

class Builder:
    def __init__(self, work):
        self.work = work; self.lock = threading.Lock(); self.cache = {}
        self.pool = ThreadPoolExecutor(8)
    def _once(self, key, fn):
        with self.lock:
            f = self.cache.get(key)
            if f is None:
                f = self.cache[key] = self.pool.submit(fn)
        return f.result()
    def _renames(self, job):
        return ["-D%s=%s" % kv for kv in sorted(job.rename.items())] + ["-D" + d for d in job.libdefs]
    def lib_goto(self, job):
        rn = self._renames(job)
        def build():
            d = tempfile.mkdtemp(dir=self.work); objs = []; ps = []
            for i, s in enumerate(lib_sources()):
                o = os.path.join(d, "%d_%s.gb" % (i, os.path.basename(s)))
                # one goto-cc process per file, at most 8 at once
                ps.append((s, subprocess.Popen([GOTOCC, *CFLAGS, *rn, "-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
                objs.append(o)
                if len(ps) >= 8: self._wait(*ps.pop(0))
            for x in ps: self._wait(*x)
            return objs
        return self._once(("goto", tuple(rn)), build)
    def _wait(self, s, p):
        _, e = p.communicate()
        if p.returncode: raise Broken("compiling %s failed: %s" % (s, e[-2000:]))
    def lib_native(self, job):
        rn = self._renames(job); weak = sorted(job.replace)
        def build():
            d = tempfile.mkdtemp(dir=self.work); objs = []; ps = []
            for i, s in enumerate(lib_sources()):
                o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
                ps.append((s, subprocess.Popen([CLANG, *CFLAGS, *rn, *NATIVE, "-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
                objs.append(o)
                if len(ps) >= 8: self._wait(*ps.pop(0))
            for x in ps: self._wait(*x)
            for f in weak:
                for o in objs: subprocess.check_call([OBJCOPY, "--weaken-symbol=" + f, o])
            return objs
        return self._once(("native", tuple(rn), tuple(weak)), build)

NATIVE = ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,function",
          "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]

def src_of(h):
    p = os.path.join(VERIF, "harness", h)
    return p if os.path.exists(p) else os.path.join(VERIF, "models", h)

class Result:
    def __init__(self, job):
        self.job = job; self.status = None; self.props = 0; self.failed = []; self.note = ""
        self.solver_s = 0.0; self.wall = 0.0; self.functions = []; self.vars = 0; self.clauses = 0
        self.steps = 0; self.validated = 0; self.replay = None; self.sample = None; self.witness = False

def hdefs(job):
    return ["-D%s=%s" % kv for kv in job.defs.items()] + ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "models")]

def native_bin(b, job, work):
    objs = b.lib_native(job)
    exe = os.path.join(work, "native")
    # --replace f:g : natively g is exported under the name f, the library's own f being weak
    ren = ["-D%s=%s" % (g, f) for f, g in job.replace.items()]
    hobjs = []
    for i, s in enumerate([job.harness, *job.models]):
        o = os.path.join(work, "n%d.o" % i)
        r = run([CLANG, *CFLAGS, *ren, *hdefs(job), *NATIVE, "-c", src_of(s), "-o", o], 120, mem=False)
        if r[0] != 0: raise Broken("native harness build failed: " + r[2][-2000:])
        hobjs.append(o)
    ar = os.path.join(work, "lib.a")
    run(["ar", "rcs", ar, *objs], 60, mem=False)
    r = run([CLANG, *NATIVE, *hobjs, ar, "-o", exe, "-lsecp256k1"], 120, mem=False)
    if r[0] != 0: raise Broken("native link failed: " + r[2][-2000:])
    return exe

ASAN = dict(os.environ, ASAN_OPTIONS="exitcode=99:allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1",
            UBSAN_OPTIONS="print_stacktrace=1")

def native_run(exe, inp):
    rc, o, e = run([exe, inp], 120, mem=False, env=ASAN)
    return rc, (o or "") + (e or "")

def value_bytes(v):
    if v.get("name") == "array":
        els = sorted(v["elements"], key=lambda x: x["index"]); return b"".join(value_bytes(x["value"]) for x in els)
    if v.get("name") == "struct":
        return b"".join(value_bytes(m["value"]) for m in v["members"])
    b = v["binary"]; assert len(b) % 8 == 0, v
    return int(b, 2).to_bytes(len(b) // 8, "little")

def show(v, depth=0):
    if v.get("name") == "array":
        els = sorted(v["elements"], key=lambda x: x["index"])
        if els and els[0]["value"].get("width") == 8: return bytes(int(x["value"]["binary"], 2) for x in els).hex()
        return [show(x["value"]) for x in els]
    if v.get("name") == "struct": return {m["name"]: show(m["value"]) for m in v["members"]}
    return int(v["binary"], 2)

def find_input(trace):
    val = None
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "I" and not s.get("hidden") and s["value"].get("name") == "struct":
            val = s["value"]
    return val

def run_job(b, job, verbose=False):
    res = Result(job); t0 = time.time()
    work = tempfile.mkdtemp(dir=b.work)
    try:
        _run_job(b, job, res, work, verbose)
    except Broken as e:
        res.status, res.note = ("stopped" if stopping.is_set() else "broken"), str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.wall = time.time() - t0
    return res

def _run_job(b, job, res, work, verbose):
    objs = b.lib_goto(job)
    hs = []
    for i, s in enumerate([job.harness, *job.models]):
        o = os.path.join(work, "h%d.gb" % i)
        r = run([GOTOCC, *CFLAGS, *hdefs(job), "-D__CPROVER", "-c", src_of(s), "-o", o], 120, mem=False)
        if r[0] != 0: raise Broken("harness build failed: " + (r[1] + r[2])[-2000:])
        hs.append(o)
    def extra():
        o = os.path.join(b.work, "libc_extra.gb")
        r = run([GOTOCC, "-w", "-D__CPROVER", "-c", src_of("libc_extra.c"), "-o", o], 120, mem=False)
        if r[0] != 0: raise Broken("libc model build failed: " + (r[1] + r[2])[-2000:])
        return o
    hs.append(b._once(("extra",), extra))
    g = os.path.join(work, "a.gb")
    r = run([GOTOCC, *hs, *objs, "-o", g], 120, mem=False)
    if r[0] != 0: raise Broken("goto link failed: " + (r[1] + r[2])[-2000:])
    if job.replace:
        args = []
        for f, s in job.replace.items(): args += ["--replace-calls", "%s:%s" % (f, s)]
        g2 = os.path.join(work, "b.gb")
        r = run([GI, *args, g, g2], 120, mem=False)
        if r[0] != 0: raise Broken("replace-calls failed: " + (r[1] + r[2])[-2000:])
        g = g2
    # loops: harness and builtin ones get the large bound, library loops job.unwind
    r = run([CBMC, g, "--drop-unused-functions", "--show-loops", "--json-ui"], 120, mem=False)
    loops = []
    try:
        for x in json.loads(r[1]):
            for l in x.get("loops", []): loops.append((l["name"], l["sourceLocation"].get("file", ""), l["sourceLocation"].get("function", "")))
    except ValueError: raise Broken("show-loops: " + (r[1] + r[2])[-500:])
    unw, cunw = job.unwind, job.cunwind; attempt = 0
    while True:
        attempt += 1
        us = []; libfun = set()
        for n, f, fn in loops:
            full = f if f.startswith("/") else os.path.join(VERIF, f)
            if full.startswith(REPO + "/"):
                u = job.unwindset.get(fn, unw)
                us.append("%s:%d" % (n, max(u, unw if attempt > 1 else 0)))
            elif f.startswith("<") or full.endswith("libc_extra.c"): us.append("%s:%d" % (n, cunw))
            else: us.append("%s:%d" % (n, job.hunwind))
        cmd = [CBMC, g, "--drop-unused-functions", "--json-ui", "--verbosity", "8", "--trace", "--unwinding-assertions", "--no-malloc-may-fail",
               "--object-bits", str(job.objbits or 9), "--max-field-sensitivity-array-size", "1200", "--unwind", str(unw), *job.extra]
        if us: cmd += ["--unwindset", ",".join(us)]
        if job.solver: cmd += ["--sat-solver", job.solver]
        if job.leak: cmd += ["--memory-leak-check"]
        rc, out, err = run(cmd, job.timeout)
        if rc is None:
            res.status, res.note = ("stopped" if stopping.is_set() else "timeout"), err; return
        try: data = json.loads(out)
        except ValueError:
            raise Broken("cbmc output (rc %s): %s" % (rc, (out[-600:] + err[-600:])))
        results = None; msgs = []
        for x in data:
            if "result" in x: results = x["result"]
            if "messageText" in x:
                m = x["messageText"]; msgs.append(m)
                k = re.match(r"Runtime Solver: ([\d.e-]+)s", m) or re.match(r"Runtime decision procedure: ([\d.e-]+)s", m)
                if k and m.startswith("Runtime decision"): res.solver_s += float(k.group(1))
                k = re.match(r"(\d+) variables, (\d+) clauses", m)
                if k: res.vars, res.clauses = int(k.group(1)), int(k.group(2))
                k = re.match(r"size of program expression: (\d+) steps", m)
                if k: res.steps = int(k.group(1))
        if results is None: raise Broken("cbmc gave no result: " + " | ".join(msgs[-4:])[-800:])
        res.props = len(results)
        failed = [p for p in results if p["status"] == "FAILURE"]
        other = [p for p in results if p["status"] not in ("FAILURE", "SUCCESS")]
        wit = [p for p in failed if p.get("description") == "VFWITNESS"]
        # forming an out-of-range pointer is not an access; every access is checked on its own
        bad = [p for p in failed if p.get("description") != "VFWITNESS" and ".pointer_arithmetic." not in p["property"]]
        unwf = [p for p in bad if ".unwind." in p["property"] or "unwinding assertion" in p.get("description", "")]
        bad = [p for p in bad if p not in unwf]
        if unwf and not bad and attempt < 4 and unw < 5000:
            unw = unw * 3 + 8; cunw = max(cunw, unw); continue
        break
    res.functions = b._once(("fn", job.harness, job.models, tuple(sorted(job.replace)), str(sorted((k, str(v)) for k, v in job.defs.items() if k not in ("LENS", "MAXL")))), lambda: functions_of(g))
    res.witness = bool(wit)
    if wit:
        v = find_input(wit[0].get("trace", []))
        if v is not None:
            res.sample = show(v)
            inp = os.path.join(work, "w.bin"); open(inp, "wb").write(value_bytes(v))
            exe = native_bin(b, job, work)
            rc, o = native_run(exe, inp)
            if rc == 0: res.validated = 1
            elif rc == 1 or rc == 99:
                bad = bad or []
                res.failed = [{"property": "native run of the reachability witness", "description": o[-600:]}]
                save_replay(res, job, inp, exe, o); res.status = "violation"; return
            else: res.note = "witness replay rc=%s %s" % (rc, o[-200:])
    if bad:
        res.failed = [{"property": p["property"], "description": p.get("description", ""),
                       "where": "%s:%s" % (p.get("sourceLocation", {}).get("file", ""), p.get("sourceLocation", {}).get("line", ""))} for p in bad]
        exe = None; notes = []
        for k, p in enumerate(bad):
            v = find_input(p.get("trace", []))
            if v is None: notes.append(p["property"] + ": no input in trace"); continue
            inp = os.path.join(work, "c%d.bin" % k); open(inp, "wb").write(value_bytes(v))
            if exe is None: exe = native_bin(b, job, work)
            rc, o = native_run(exe, inp)
            if rc in (1, 99) or (rc is not None and rc < 0) or (rc is None and "timeout" in o):
                res.sample = show(v)
                res.failed.insert(0, res.failed.pop(k))
                save_replay(res, job, inp, exe, o, unw); res.status = "violation"; return
            notes.append("%s: native rc=%s" % (p["property"], rc))
        res.status = "unreplayed"; res.note = "; ".join(notes)[:1500]; return
    if unwf:
        res.status, res.note = "unwind", "; ".join(p["property"] for p in unwf); return
    if other:
        res.status, res.note = "unknown", "; ".join(p["property"] + "=" + p["status"] for p in other[:5]); return
    if job.expect_reach and not wit:
        res.status, res.note = "vacuous", "the end of the harness is not reachable"; return
    res.status = "ok"

def functions_of(g):
    """library functions whose bodies are reachable from main"""
    r = run([CBMC, g, "--drop-unused-functions", "--show-goto-functions", "--json-ui"], 60, mem=False)
    fs = set()
    try:
        for x in json.loads(r[1] or "[]"):
            for f in x.get("functions", []):
                for i in f.get("instructions", []):
                    sl = i.get("sourceLocation", {})
                    if sl.get("file", "").startswith(REPO + "/") and sl.get("function") == f["name"]:
                        fs.add(os.path.relpath(sl["file"], REPO) + ":" + f["name"]); break
    except ValueError: pass
    return sorted(fs)

def save_replay(res, job, inp, exe, out, unw=None):
    """evidence/replay/<id>/<job>/{input.bin,replay.sh,output.txt}"""
    d = os.path.join(VERIF, "evidence", "replay", CURRENT, job.name)
    os.makedirs(d, exist_ok=True)
    shutil.copy(inp, os.path.join(d, "input.bin"))
    open(os.path.join(d, "output.txt"), "w").write(out)
    json.dump({"job": job.name, "harness": job.harness, "defs": {k: str(v) for k, v in job.defs.items()}, "failed": res.failed[:6],
               "input": res.sample}, open(os.path.join(d, "counterexample.json"), "w"), indent=1)
    open(os.path.join(d, "replay.sh"), "w").write("#!/bin/sh\n# re-runs this counterexample against the library built from the current %s\nexec python3 %s/check.py %s --replay %s %s/input.bin\n" % (REPO, VERIF, CURRENT, job.name, d))
    os.chmod(os.path.join(d, "replay.sh"), 0o755)
    res.replay = os.path.join(d, "replay.sh")

CURRENT = "?"
