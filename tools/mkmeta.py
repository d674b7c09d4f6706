#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "props.py")).read())   # defines P: list of dicts

lines, checks, na = [], [], []
for p in P:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"][:80], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": ["src/tools21cm/" + f for f in p["files"]],
                    "state": p.get("state", []),
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}}))
    if os.path.exists(os.path.join(here, "mc", "props", p["id"] + ".py")) and not p.get("na"):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p.get("level", "model_checking"),
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
open(os.path.join(here, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks: bounded exhaustive enumeration of the real code against reference models (mc/core.py). No hooks in /repo."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
