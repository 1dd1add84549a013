#!/usr/bin/env python3
"""setup_cmd: nothing is installed or built ahead; every check builds what it needs. Verifies that the tools are there."""
import os, shutil, sys
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ok")
