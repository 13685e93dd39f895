"""Jobs of the second engine (irx/): symbolic execution of the LLVM IR of /repo's
sources with term domains; the verdicts are SMT queries (z3)."""
import json, os, shutil, subprocess, tempfile, time
import bmc

PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"

class IrxJob:
    def __init__(self, name, script, req, bounds="", weight=1, timeout=780):
        self.name, self.script, self.req, self.bounds, self.weight, self.timeout = name, script, dict(req), bounds, weight, timeout
    def _env(self): return dict(os.environ, PYTHONPATH=os.path.join(bmc.VERIF, "irx"), PYTHONDONTWRITEBYTECODE="1")
    def run(self, b, work):
        r = bmc.Result(self); t0 = time.time(); d = tempfile.mkdtemp(dir=work)
        try:
            rq = dict(self.req, work=d, budget=max(10, self.timeout - 60)); fi, fo = os.path.join(d, "request.json"), os.path.join(d, "result.json")
            json.dump(rq, open(fi, "w"))
            rc, o, e = bmc.run([PY, os.path.join(bmc.VERIF, "irx", self.script), fi, fo], self.timeout, mem=False, env=self._env())
            if rc is None: r.status, r.note = ("stopped" if bmc.stopping.is_set() else "timeout"), e
            elif not os.path.exists(fo): r.status, r.note = ("stopped" if bmc.stopping.is_set() else "broken"), "rc=%s %s" % (rc, (o + e)[-1500:])
            else: self._take(r, json.load(open(fo)), d)
        finally: shutil.rmtree(d, ignore_errors=True)
        r.wall = time.time() - t0
        return r
    def _take(self, r, res, d):
        st = res.get("stats", {})
        r.status = res["status"]; r.note = res.get("note", "")
        if res.get("unexplored"): r.note += " not explored: %s" % json.dumps(res["unexplored"])[:600]
        r.props = res.get("obligations", res.get("done", 0)); r.solver_s = st.get("z3_s", 0.0); r.steps = res.get("steps", 0); r.vars = res.get("nodes", 0)
        r.functions = res.get("functions", []); r.validated = res.get("native_runs", 1 if res.get("native_sample") else 0)
        r.extra = {"lemmas": res.get("lemmas", 0), "paths": res.get("paths", 0), "queries": st.get("lemma_queries", 0) + st.get("queries", 0), "unexplored": res.get("unexplored", [])}
        r.sample = res.get("sample") or res.get("native_sample")
        if r.status == "violation":
            out = os.path.join(bmc.VERIF, "evidence", "replay", bmc.CURRENT, self.name); os.makedirs(out, exist_ok=True)
            f = os.path.join(out, "input.bin"); shutil.copy(res["input"], f)
            open(os.path.join(out, "output.txt"), "w").write(res.get("output", ""))
            json.dump({k: res.get(k) for k in ("note", "case", "huge", "sample")}, open(os.path.join(out, "counterexample.json"), "w"), indent=1)
            sh = os.path.join(out, "replay.sh")
            open(sh, "w").write("#!/bin/sh\n# re-runs this counterexample against the library built from the current %s\nexec python3 %s/check.py %s --replay '%s' '%s'\n" % (bmc.REPO, bmc.VERIF, bmc.CURRENT, self.name, f))
            os.chmod(sh, 0o755); r.replay = sh
            r.failed = [{"property": self.script, "description": res.get("note", ""), "where": ""}]
            r.sample = res.get("sample") or res.get("case")
    def replay(self, f):
        d = tempfile.mkdtemp(prefix="vf_replay_")
        try:
            m = {}
            cx = os.path.join(os.path.dirname(f), "counterexample.json")
            if os.path.exists(cx): m = json.load(open(cx))
            p = subprocess.run([PY, "-c", "import sys; m=__import__(sys.argv[1]); rc,o=m.replay(sys.argv[2],sys.argv[3],sys.argv[4]=='1'); print(o); sys.exit(1 if rc else 0)",
                                self.script[:-3], d, f, "1" if m.get("huge") else "0"], env=self._env())
            return p.returncode
        finally: shutil.rmtree(d, ignore_errors=True)
