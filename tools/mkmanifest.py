#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
TECH = {"model_checking": "stateless model checking of the real code: exhaustive enumeration of bounded operation histories against a reference model",
        "exploration": "stateless model checking of the real code: exhaustive enumeration of a bounded input and choice space against an independent oracle",
        "fault_enumeration": "stateless model checking of the real code: exhaustive enumeration of fault points (cuts, deletions, substitutions) of files"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check built yet"}); continue
    s = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough", "technique": s.get("technique", TECH[s["level"]]), "level": s["level"],
                   "level_note": "Exhaustive within: " + s["bounds"] + ". Runs the sources of /repo under ASan and UBSan; trusts the harness's oracle" + "".join("; " + a for a in s.get("assumptions", [])) + "."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles /repo's working tree itself (no hooks in /repo). DESIGN.md explains the oracles, bounds and findings."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
