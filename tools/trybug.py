"""Runs the check of each planted bug's property against a patched copy of /repo.

usage: trybug.py [-a] [ID...]     -a: every claimed check, not only the bug's property
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp = "-a" in sys.argv
ids = [x for x in sys.argv[1:] if x != "-a"] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
claimed = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = f"/tmp/trybug/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/trybug", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
    for p in (claimed if allp else [prop]):
        if p not in claimed:
            print(i, p, "not claimed")
            continue
        r = subprocess.run(["python3-vt", "checks/run.py", p], cwd=ROOT, capture_output=True,
                           text=True, env={**os.environ, "PYVC_REPO": w})
        lines = r.stdout.strip().splitlines()
        if allp and r.returncode == 0:
            continue
        print(i, p, "rc", r.returncode, "|", lines[-1][:150] if lines else r.stderr[-300:])
        for x in lines[:-1][:7]:
            print("     ", x[:230])
    shutil.rmtree(w, ignore_errors=True)
