#!/usr/bin/env python3
# Every check builds what it needs itself; this only verifies that the tools are there.
import os, shutil, sys
V = os.path.dirname(os.path.abspath(__file__))
for d in ("build", "out", "evidence"): os.makedirs(os.path.join(V, d), exist_ok=True)
if not shutil.which("clang++-18"): sys.exit("clang++-18 is missing")
print("ok")
