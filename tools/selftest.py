#!/usr/bin/env python3-vt
"""setup: checks that the tools the framework needs are present, and compares the verifier with the machine (difftest.py)."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import z3
import llvm
ok = True
for t in ("clang++-18", "/usr/lib/llvm-18/bin/llvm-link", "/usr/lib/llvm-18/bin/llvm-dis", "/usr/lib/llvm-18/bin/llvm-cxxfilt", "g++"):
    if not shutil.which(t):
        print("missing tool:", t)
        ok = False
x = z3.BitVec("x", 32)
s = z3.Solver()
s.add(z3.Not(z3.ULE(x & 7, 7)))
if s.check() != z3.unsat:
    print("z3 does not work")
    ok = False
sys.path.insert(0, os.path.join(HERE, "tools"))
import difftest
if ok and not difftest.main(8, 20):
    ok = False
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("setup ok" if ok else "setup failed")
sys.exit(0 if ok else 1)
