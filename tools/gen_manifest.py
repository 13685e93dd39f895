#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import jobs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
CB = "bounded symbolic execution of the compiled C sources with CBMC (bit-precise, SAT), native ASan/UBSan replay of counterexamples"
IR = "path-wise symbolic execution of the sources' LLVM IR; equivalence with the written standard decided by z3 (SMT sweeping with cut points), native replay"
LI = "path-wise symbolic execution of the sources' LLVM IR over integer terms; path conditions and digit identities decided by z3 (linear integer arithmetic), native replay"
BI = "symbolic execution of the sources' LLVM IR with path merging over hash-consed bit-vector terms; equivalence with the written BIP173 decided by z3 (SMT sweeping), native ASan/UBSan replay"
WI = "CBMC for cleanse and heap scratch; symbolic execution of the sources' LLVM IR (z3) for local buffers and base58 scratch; native replay"
PU = "symbolic execution of the sources' LLVM IR with path merging; every path's static data compared with the initial one (z3 decides path feasibility and equality), call histories executed and compared where it differs; native replay"
TECH = {**{c: IR for c in "C12 C13 C14 C15 C16 C17".split()}, **{c: LI for c in "C06 C07 C08".split()}, "C18": BI, "C19": BI, "C31": WI, "C34": PU, **{c: CB + "; large buffers by path-wise symbolic execution of the sources' LLVM IR (z3 decides table look-ups and digits)" for c in "C01 C02 C03 C04 C05 C32".split()}}
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(H, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in jobs._REG:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")}); continue
    note = "Holds for every value within the bounds listed in the evidence (sizes, lengths, unrollings); outside: " + (jobs.META[i]["outside"] or "lengths not listed") + "."
    if jobs.META[i]["assumptions"]: note += " Assumes: " + "; ".join(jobs.META[i]["assumptions"]) + "."
    note += " Trusts the solver, the front end (goto-cc or clang) and the C library models."
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": TECH.get(i, CB), "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile the library's sources as they are (function stubs are installed at link level). known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
