#!/usr/bin/env python3
"""setup: nothing to build ahead of time; checks that the tools the checks use are present."""
import os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import bmc, irxjob
for t in (bmc.CBMC, bmc.GOTOCC, bmc.GI, bmc.CLANG, bmc.OBJCOPY, irxjob.PY, "/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-link"):
    if not os.path.exists(t): sys.exit("missing tool: " + t)
subprocess.check_call([irxjob.PY, "-c", "import z3; print('z3', z3.get_version_string())"])
subprocess.check_call([bmc.CBMC, "--version"])
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
