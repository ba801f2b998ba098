#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (developer tool; not run by checks)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["claim"]:
        t, l, n = p["claim"]
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"bash run.sh {p['id']}",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check loads and type-checks /repo's current working tree, builds its SSA form and analyses that; nothing in /repo is executed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
