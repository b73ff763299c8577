#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED lists the properties with a check."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T[i]["technique"],
            "level": "model_checking",
            "level_note": T[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed to /repo: mc/instr instruments a scratch copy of the current tree at check time (see DESIGN.md)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
