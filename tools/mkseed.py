#!/usr/bin/env python3
"""Plants bugs. usage: mkseed.py SPEC.py [ID...]
SPEC.py defines S = [dict(id, property, edits=[(file, old, new)...], demo=python source, needs, breaks)].
For each: makes a scratch copy of /repo, confirms that the demo passes without and fails with the change and that the
stable tests still pass, and writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
REPO = os.environ.get("MC_REPO", "/repo")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, e, t=600):
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


for s in ns["S"]:
    if want and s["id"] not in want:
        continue
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", REPO, w], check=True)
        sh(["git", "checkout", "-q", "--", "."], w, env)
        e = dict(env, PYTHONPATH=w + "/src")
        out = os.path.join(here, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        pre = "import sys, os\n"
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        r0 = sh(["bash", out + "/demo.sh"], w, e, 300)
        for f, old, new in s["edits"]:
            p = w + "/src/tools21cm/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        r1 = sh(["bash", out + "/demo.sh"], w, e, 300)
        diff = sh(["git", "diff"], w, env).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
                "--continue-on-collection-errors", "--basetemp=" + d + "/bt", "-o", "junit_family=xunit2", "--junitxml=" + d + "/j.xml"],
               w, dict(e, PYTHONPATH=w + "/src:/opt/vp"), 600)
        sh(["/opt/venv/bin/python", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/j.xml"], w, e)
        passed = set(json.load(open(d + "/o.json"))["passed"])
        lost = stable - passed
        ok = r0.returncode == 0 and r1.returncode != 0 and not lost
        print(s["id"], "OK" if ok else "BAD", "unpatched", r0.returncode, "patched", r1.returncode, "lost", sorted(lost))
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-1500:], "----", r1.stdout[-500:], r1.stderr[-800:])
    finally:
        shutil.rmtree(d)
