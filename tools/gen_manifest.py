import sys; sys.dont_write_bytecode = True
# -*- coding: utf-8 -*-
"""Writes /verif/MANIFEST.json from properties.jsonl and the modules in qmv/props."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
naf = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(naf):
    NA = json.load(open(naf))
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)
    pid = p["id"]
    f = os.path.join(V, "qmv", "props", pid.lower() + ".py")
    if pid not in NA and os.path.exists(f):
        mod = importlib.import_module("qmv.props." + pid.lower())
        bounds = "; ".join(f"{h['name']}: {h['bounds']}" for h in mod.HARNESSES)
        note = f"All values within the bounds decided by z3. Bounds: {bounds}. Assumptions: " + (
            "; ".join(getattr(mod, "ASSUMPTIONS", [])) or "none"
        )
        checks.append(dict(
            property=pid,
            quick_cmd=f"/opt/venv/bin/python check.py {pid} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {pid} --tier thorough",
            technique="solver-based: symbolic execution of the real code (Python proxies / LLVM IR), assertions decided by z3",
            level="model_checking",
            level_note=note,
        ))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "No check has been built for this property yet.")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks)
if na:
    m["not_applicable"] = na
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
