# -*- coding: utf-8 -*-
"""Smoke test of the tools the checks need (nothing has to be built)."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qmv.sym import z3

s = z3.Solver()
x = z3.Int("x")
s.add(x > 3, x < 5)
assert s.check() == z3.sat
subprocess.run(["/usr/bin/clang-18", "--version"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["gcc", "--version"], check=True, stdout=subprocess.DEVNULL)
print("ok: z3", z3.get_version_string())
