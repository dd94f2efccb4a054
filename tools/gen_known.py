#!/usr/bin/env python3
"""Writes known_findings.json: findings (suppressing) and fixed (informational)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True)
fixed = []
for l in reversed(log.splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if s not in FIX:
            print("no property for:", s)
            continue
        fixed.append(f"fixed: property={FIX[s]} {h} {s[5:]}")
p = os.path.join(ROOT, "known_findings.json")
k = json.load(open(p)) if os.path.exists(p) else {"findings": []}
json.dump({"findings": k["findings"], "fixed": fixed}, open(p, "w"), indent=1)
