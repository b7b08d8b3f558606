"""Runs claimed checks against behaviour-preserving edits; every one has to stay quiet.

usage: tryref.py [-p P1,P2] [NAME-PREFIX...]
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args[:1] == ["-p"]:
    props = args[1].split(",")
    args = args[2:]
claimed = props or [c["property"] for c in json.load(
    open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
names = sorted(f[:-5] for f in os.listdir(os.path.join(ROOT, "refactorings")) if f.endswith(".diff"))
for n in names:
    if args and not any(n.startswith(a) for a in args):
        continue
    w = f"/tmp/tryref/{os.getpid()}/{n}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", os.path.join(ROOT, "refactorings", n + ".diff")],
                   check=True)
    for p in claimed:
        r = subprocess.run(["python3-vt", "checks/run.py", p], cwd=ROOT, capture_output=True,
                           text=True, env={**os.environ, "PYVC_REPO": w})
        lines = r.stdout.strip().splitlines()
        print(n, p, "quiet" if r.returncode == 0 else f"ALARM rc {r.returncode}",
              lines[-1][:150] if lines else r.stderr[-300:], flush=True)
        if r.returncode:
            for x in lines[:-1][:7]:
                print("     ", x[:230], flush=True)
    shutil.rmtree(w, ignore_errors=True)
