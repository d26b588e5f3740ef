#!/usr/bin/env python3
"""Rewrites known_findings.json's "fixed" entries from the fix: commits of /repo (open findings are kept as they are)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = json.load(open(os.path.join(V, "tools", "fixed.json")))   # subject -> [property, key, what failed]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n")
f = os.path.join(V, "known_findings.json")
out = [k for k in json.load(open(f)) if k.get("status") != "fixed"]
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p, key, what = FIXED[s]
    out.append({"property": p, "key": key, "status": "fixed", "commit": h, "what": f"fixed: property={p} {h} {what}"})
json.dump(out, open(f, "w"), indent=1)
