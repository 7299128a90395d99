#!/usr/bin/env python3
"""Writes known_findings.jsonl: findings from KNOWN below, "fixed:" lines from the fix: commits of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# hash prefix of each fix: commit -> property whose check reported it
FIX = dict(x.split() for x in open(os.path.join(V, "tools", "fixes.txt")) if x.strip())
KNOWN = json.load(open(os.path.join(V, "tools", "known.json")))
out = ['# One JSON object per known finding (matched by its exact mechanism); "fixed:" lines are a record and suppress nothing.']
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bcd2bfc..HEAD"], text=True).strip().split("\n")
for line in log:
    h, t = line.split(" ", 1)
    if h[:7] not in FIX:
        sys.exit(f"no property for {line}: add it to tools/fixes.txt")
    out.append(f"fixed: property={FIX[h[:7]]} {h} {t.removeprefix('fix: ')}")
for k in KNOWN:
    out.append(json.dumps({"property": k[0], "mechanism": k[1], "status": "known", "what": k[2]}))
open(os.path.join(V, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
print(len(out) - 1, "entries")
