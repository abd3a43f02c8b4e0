#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like
entries below.  Run by hand after editing; the outputs are committed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE          # noqa

out = os.path.dirname(HERE)
with open(os.path.join(out, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                               "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1,
       "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"],
                   "quick_cmd": f"bash run.sh {p['id']} quick",
                   "thorough_cmd": f"bash run.sh {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"],
                   "level_note": p["note"]}
                  for p in PROPS if p["id"] not in NOT_APPLICABLE],
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
       "notes": "No hooks were added to /repo. Checks run the library from /repo's working tree."}
with open(os.path.join(out, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(PROPS), "properties")
