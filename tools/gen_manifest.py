#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
p = os.path.join(V, "tools", "notes.json")
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr["id"]
    if os.path.exists(os.path.join(V, "checks", f"{i}.py")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": n.get("technique", "runtime monitoring: generated workloads, online monitor against an independent reference model"),
            "level": n.get("level", "exploration"),
            "level_note": n.get("note", "Holds on every execution explored; the oracle is an independent model in /verif/checks, the domain of inputs is stated in DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors wrap the public API from outside. Checks import /repo's working tree directly."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
