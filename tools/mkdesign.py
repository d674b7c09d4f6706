#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written texts below, the suites and their bounds from mc/props/*.py (needs MC_REPO or /repo)."""
import importlib, json, os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "props.py")).read())
exec(open(os.path.join(here, "tools", "design_text.py")).read())
repo = os.environ.get("MC_REPO", "/repo")
probe = r"""
import sys, json, importlib
out = {}
for pid in sys.argv[1:]:
    m = importlib.import_module("mc.props." + pid)
    rows = []
    for su in m.SUITES:
        n = []
        for t in ("quick", "thorough"):
            try: n.append(len(list(su.cases(t))))
            except Exception: n.append(0)
        rows.append([su.name, n[0], n[1], su.bounds])
    out[pid] = rows
print(json.dumps(out))
"""
env = dict(os.environ, PYTHONPATH=f"{repo}/src:{here}:{here}/mc/site", MC_REPO=repo, TQDM_DISABLE="1", MPLBACKEND="Agg", MC_SCRATCH=os.environ.get("MC_SCRATCH", "/tmp"))
ids = [p["id"] for p in P]
r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-B", "-c", probe, *ids], env=env, capture_output=True, text=True)
if r.returncode: sys.exit(r.stderr)
rows = json.loads(r.stdout.strip().splitlines()[-1])
known = json.load(open(os.path.join(here, "known_findings.json")))
o = [HEAD]
o.append("## Properties\nCounts are cases in the quick / thorough tier; one case is usually many executions (a whole block of inputs, a whole schedule tree).\n")
for p in P:
    d = D[p["id"]]
    o.append(f"### {p['id']} {p['title']}")
    o.append("Oracle: " + d["oracle"])
    for s in rows[p["id"]]:
        o.append(f"- `{s[0]}` ({s[1]} / {s[2]}): {s[3]}")
    o.append("Cost: " + d["cost"] + ". Reach beyond tests: " + p["why"] + "." + ((" " + d["note"]) if d.get("note") else ""))
    k = sum(1 for f in known["fixed"] if f"property={p['id']} " in f)
    if k: o[-1] += f" Found and repaired here: {k} defects."
    o.append("")
o.append(UNCLAIMED)
o.append("## Planted bugs\n" + SEEDS)
o.append("| id | property | needs | caught |\n|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    o.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {CAUGHT.get(i, 'yes')} |")
o.append("\n" + TAIL.format(nfix=len(known["fixed"]), nfind=len(known["findings"])))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o) + "\n")
