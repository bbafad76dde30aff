#!/usr/bin/env python3
"""Checks that the offline toolchain is there and that the specification parses."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from core import JARS, SPEC
for t in ("cargo", "rustc", "java", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or b"*** Errors" in p.stdout or b"Fatal" in p.stdout:
            sys.stdout.buffer.write(p.stdout)
            sys.exit("does not parse: " + f)
print("ok")
