"""Writes refactorings/*.diff: behaviour-preserving edits, used to see that checks stay quiet.

usage: mkref.py [PREFIX...]
"""
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}
for f in sorted(os.listdir(os.path.join(ROOT, "tools", "refs"))):
    if f.endswith(".py"):
        ns = {}
        exec(open(os.path.join(ROOT, "tools", "refs", f)).read(), ns)
        EDITS.update(ns["EDITS"])
W = "/tmp/mkref"
for name, edits in EDITS.items():
    if sys.argv[1:] and not name.startswith(tuple(sys.argv[1:])):
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    for path, pairs in edits.items():
        p = os.path.join(W, path)
        s = open(p).read()
        for a, b, *every in pairs:
            assert a in s, (name, a)
            s = s.replace(a, b, -1 if every else 1)
        open(p, "w").write(s)
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(ROOT, "refactorings", name + ".diff"), "w").write(d)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=W,
                       capture_output=True, text=True,
                       env={**os.environ, "PYTHONPATH": os.path.join(W, "src")})
    print(name, r.stdout.strip().splitlines()[-1])
shutil.rmtree(W, ignore_errors=True)
