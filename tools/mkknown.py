#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (table below: commit subject -> property)."""
import json, os, subprocess
REPO = os.environ.get("MC_REPO", "/repo")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(here, "tools", "fixes.json")))
log = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        k = s[4:].strip()
        p = T.get(k)
        if p is None:
            print("no property for:", k)
            continue
        out.append(f"fixed: property={p} {h} {k}")
kf = json.load(open(os.path.join(here, "known_findings.json")))
kf["fixed"] = out
json.dump(kf, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed")
