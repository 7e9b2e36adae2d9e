#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks need are there."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = True
for cmd in (["python3-vt", "-c", "import z3, cvc5"], ["/opt/venv/bin/python", "-c", "import numpy, numba, scipy, ripser"], ["lean", "--version"]):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(" ".join(cmd), "->", r.returncode)
    ok = ok and r.returncode == 0
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
