#!/usr/bin/env python3
"""Nothing to build: the checks extract, prove and compile from /repo on every run.  Says so early if a tool is missing."""
import os
import shutil
import subprocess
import sys
ok = True
for t in ("verus", "cargo", "rustc"):
    if not shutil.which(t, path="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", "")):
        print("missing:", t)
        ok = False
subprocess.run(["verus", "--version"], check=False)
sys.exit(0 if ok else 1)
