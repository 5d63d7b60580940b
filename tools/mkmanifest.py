#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
    "notes": NOTES}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
