#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the modules and design_tail.md."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys
sys.path.insert(0, HERE)
from design_notes import N      # noqa

props = {p["id"]: p for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
out = [open(os.path.join(HERE, "design_head.md")).read()]
for f in sorted(glob.glob(os.path.join(ROOT, "mc", "c[0-9][0-9].py"))):
    pid = os.path.basename(f)[:-3].upper()
    if pid not in props:
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "LEVEL"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    p = props[pid]
    t = f"### {pid} {p['title']} ({d['LEVEL']})\n\n*Enumerated:* {d['RULE']}.\n\n*Oracle, notes:* {N[pid]}\n\n*Why not tests:* {p['why_tests_cant']}\n"
    if "ASSUMPTIONS" in d:
        t += "\n*Assumed:* " + "; ".join(d["ASSUMPTIONS"]) + ".\n"
    out.append(t)
out.append(open(os.path.join(HERE, "design_tail.md")).read())

seeds = sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")))
out.append("## Planted bugs (seeded/)\n\n| id | property | needs | caught by |\n|---|---|---|---|\n" + "".join(
    f"| {os.path.basename(os.path.dirname(s))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |\n"
    for s in seeds for m in [json.load(open(s))]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
