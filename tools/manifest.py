#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick",
                       "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": p["technique"], "level": "exploration",
                       "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
assert all(i in ids for i in PROPS), "check without a property"
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.dont_write_bytecode = True; import props'",
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
open(f"{H}/MANIFEST.json", "a").write("\n")
