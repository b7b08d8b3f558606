"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py: edits applied to a copy of /repo, checked.

A seed file defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text).
usage: seed.py ID...   (all when none given)
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, "tools", "seeds")
PRE = '''import io, os, struct, sys, tempfile, zlib
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/sh
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(SEEDS) if f.endswith(".py"))
    for i in ids:
        ns = {}
        exec(open(os.path.join(SEEDS, i + ".py")).read(), ns)
        d = os.path.join(ROOT, "seeded", i)
        os.makedirs(d, exist_ok=True)
        w = f"/tmp/seedwork/{i}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/seedwork", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(w, "src/vblf", f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True,
                               check=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(PRE + ns["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True,
                           text=True)
        b = subprocess.run([os.path.join(d, "demo.sh")], cwd=w, capture_output=True, text=True)
        t = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
             "tests"], cwd=w, capture_output=True, text=True,
            env={**os.environ, "PYTHONPATH": w + "/src"})
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(i, ns["PROP"], "OK" if ok else "BAD", a.returncode, b.returncode, t.returncode,
              t.stdout.strip().splitlines()[-1][:60])
        if not ok:
            print(a.stdout[-800:], a.stderr[-800:], "\n---", b.stdout[-300:], b.stderr[-300:],
                  "\n---", t.stdout[-600:] if t.returncode else "")
        shutil.rmtree(w, ignore_errors=True)


main()
