#!/usr/bin/env python3
"""check.py <ID> [--only REGEX] [--replay JOB FILE] [-v]
Decides one property by solver-based checking of /repo's current sources."""
import json, os, re, shutil, sys, tempfile, time, atexit
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import bmc, jobs

def main():
    a = sys.argv[1:]
    pid = a[0]; verbose = "-v" in a
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    bmc.CURRENT = pid
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid); atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
    todo = jobs.get(pid, tier, seed)
    if "--only" in a: todo = [j for j in todo if re.search(a[a.index("--only") + 1], j.name)]
    b = bmc.Builder(work)
    if "--replay" in a:
        i = a.index("--replay"); j = [x for x in todo + jobs.get(pid, "thorough", seed) if x.name == a[i + 1]][0]
        if hasattr(j, "replay"): sys.exit(j.replay(a[i + 2]))
        exe = bmc.native_bin(b, j, work); rc, o = bmc.native_run(exe, a[i + 2]); print(o); sys.exit(rc or 0)
    rdir = os.path.join(bmc.VERIF, "evidence", "replay", pid); shutil.rmtree(rdir, ignore_errors=True)
    todo.sort(key=lambda j: -j.weight)
    deadline = t0 + (820 if tier == "quick" else float(os.environ.get("VF_DEADLINE", "6000")))
    res = []; viol = []
    nproc = os.cpu_count() or 8
    with ThreadPoolExecutor(nproc) as ex:
        def go(j):
            if bmc.stopping.is_set() or time.time() > deadline:
                r = bmc.Result(j); r.status = "stopped"; return r
            if tier == "thorough": j.timeout *= 5
            j.timeout = min(j.timeout, max(5, deadline - time.time()))
            return j.run(b, work) if hasattr(j, "run") else bmc.run_job(b, j, verbose)
        fs = [ex.submit(go, j) for j in todo]
        for f in as_completed(fs):
            r = f.result(); res.append(r)
            if verbose or r.status not in ("ok", "stopped"):
                print("  [%s] %s: %s props=%d %.1fs (solver %.1fs) steps=%d vars=%d %s" % (pid, r.job.name, r.status, r.props, r.wall, r.solver_s, r.steps, r.vars, r.note[:1500]), flush=True)
            if r.status == "violation":
                viol.append(r)
                if "--all" not in a: bmc.stop_all()
    known = load_known(pid)
    bad = [r for r in res if r.status not in ("ok", "violation") and not (r.status == "stopped" and viol)]
    write_evidence(pid, tier, seed, res, viol, time.time() - t0)
    rc = 0
    for r in res:
        for x in (getattr(r, "extra", None) or {}).get("unexplored", []): print("NOT DECIDED: %s %s" % (r.job.name, json.dumps(x)[:300]))
    for r in viol:
        k = [x for x in known if r.job.name == x["job"] and any(x["match"] in f["property"] + " " + f["description"] for f in r.failed)]
        if k: print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"])); continue
        f = r.failed[0]
        print("%s: %s [%s] %s" % (r.job.name, f["property"], f.get("where", ""), f["description"][:300]))
        print("  input: %s" % (json.dumps(r.sample)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, r.replay)); rc = 1
    # queries that gave no answer are listed as not explored; without an answer to most of them, or if
    # something could not be built, the check as a whole has none
    late = [r for r in bad if r.status in ("timeout", "stopped", "undecided", "unsupported", "unreplayed")]
    if rc == 0 and bad and len(late) == len(bad) and 3 * len(bad) <= 2 * len(res):
        for r in bad: print("NOT DECIDED: %s: %s %s" % (r.job.name, r.status, " ".join(r.note.split())[:300]))
        bad = []
    if rc == 0 and bad:
        print("INCONCLUSIVE property=%s: %s" % (pid, ", ".join("%s=%s" % (r.job.name, r.status) for r in bad[:10]))); rc = 2
    if rc == 0: print("OK property=%s jobs=%d assertions=%d wall=%.1fs" % (pid, len(res), sum(r.props for r in res), time.time() - t0))
    sys.stdout.flush()
    sys.exit(rc)

def load_known(pid):
    out = []
    p = os.path.join(bmc.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d["property"] == pid: out.append(d)
    return out

def write_evidence(pid, tier, seed, res, viol, wall):
    fns = sorted(set(f for r in res for f in r.functions))
    ok = [r for r in res if r.status == "ok"]
    meta = jobs.META[pid]
    cov = {
        "explanation": "Bounded symbolic execution of the library's real code, regenerated from /repo on this run; every assertion listed (harness property, memory safety, undefined arithmetic, unwinding) was decided by the solver for all values within the bounds of its query.",
        "queries": len(res), "queries_discharged": len(ok),
        "obligations": sum(r.props for r in res), "discharged": sum(r.props - (1 if r.witness else 0) for r in ok) + sum(1 for r in ok if r.witness),
        "solver_s": round(sum(r.solver_s for r in res), 3),
        "sat_variables_or_terms": sum(r.vars for r in res),
        "states": sum(r.steps for r in res), "transitions": sum(r.clauses or r.props for r in res),
        "counting_rule": "states: program steps executed symbolically; transitions: clauses of the SAT encodings (CBMC queries) plus obligations (term-rewriting/SMT queries)",
        "traces_validated_against_impl": sum(r.validated for r in res),
        "reachability_witnesses": sum(1 for r in res if r.witness),
        "functions_encoded": fns,
        "bounds": sorted(set(r.job.bounds for r in res if r.job.bounds)),
        "per_query": [{"query": r.job.name, "status": r.status, "assertions": r.props, "solver_s": round(r.solver_s, 3), "wall_s": round(r.wall, 2)} for r in sorted(res, key=lambda r: r.job.name)][:400],
        "samples": [{"query": r.job.name, "witness_input": r.sample} for r in res if r.sample is not None][:5],
        "outside": meta.get("outside", ""),
    }
    if not cov["samples"]: cov["samples"] = [{"query": r.job.name} for r in res[:3]]
    ex = [r for r in res if hasattr(r, "extra")]
    if ex:
        cov["symbolic_paths"] = sum(r.extra["paths"] for r in ex); cov["smt_lemmas"] = sum(r.extra["lemmas"] for r in ex); cov["smt_queries"] = sum(r.extra["queries"] for r in ex)
        cov["not_explored"] = [x for r in ex for x in r.extra["unexplored"]][:50]
    cov["not_explored"] = cov.get("not_explored", []) + [[r.job.name, r.job.bounds, r.status, r.note[:300]] for r in res if r.status not in ("ok", "violation")]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": meta.get("assumptions", []) + jobs.COMMON_ASSUMPTIONS, "violations": len(viol)}
    os.makedirs(os.path.join(bmc.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(bmc.VERIF, "evidence", "." + pid + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(bmc.VERIF, "evidence", pid + ".json"))

if __name__ == "__main__": main()
