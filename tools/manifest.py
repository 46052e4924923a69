#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(V, "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIMED.get(i)
    if c is None or "na" in c:
        na.append({"property": i, "reason": (c or {}).get("na", "no check has been built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i}",
        "thorough_cmd": f"python3 run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check runs from /verif against /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
