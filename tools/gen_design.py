import sys; sys.dont_write_bytecode = True
# -*- coding: utf-8 -*-
"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_tail.md, properties.jsonl and the check modules."""
import importlib
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
HOW = json.load(open(os.path.join(V, "tools", "design_how.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)
    m = importlib.import_module("qmv.props." + p["id"].lower())
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Decided by* {HOW[p['id']]}\n")
    out.append("*Why tests cannot settle it:* " + p["why_tests_cant"] + "\n")
    for h in m.HARNESSES:
        q = len(h["cases"]("quick") if callable(h["cases"]) else h["cases"])
        t = len(h["cases"]("thorough")) if callable(h["cases"]) else q
        out.append(f"* `{h['name']}` ({q} cases, {t} thorough): {h['bounds']}.")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("* Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    if getattr(m, "STUBS", None):
        out.append("* Stubs: " + "; ".join(m.STUBS) + ".")
    out.append("")
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
fixes = []
for ln in open(os.path.join(V, "KNOWN_FINDINGS.jsonl")):
    f = json.loads(ln)
    w = f["text"].split(" ", 3)
    fixes.append(f"| {f['property']} | `{w[2]}` | {w[3]} |")
seeded = []
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeded.append(f"| `{d}` | {m['property']} | {m.get('caught_by', m['property'])} |")
out.append(tail.replace("@FIXES@", "\n".join(fixes)).replace("@SEEDED@", "\n".join(seeded)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
