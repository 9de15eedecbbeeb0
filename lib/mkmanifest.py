#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from levels import LEVELS
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", "p_%s.py" % i.lower())):
        lvl, tech, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check registered yet: the specification part for it is being built")})
import subprocess
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na}
m["hooks"] = {"guard": "verif", "enable": "go build -tags verif", "source_commits": []}
hf = os.path.join(V, "hooks.txt")
if os.path.exists(hf): m["hooks"]["source_commits"] = open(hf).read().split()
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
