"""Nothing needs building: checks that the tools the checks use are there."""
import importlib
import os
import shutil
import subprocess
import sys

for m in ("z3",):
    importlib.import_module(m)
if not shutil.which("cvc5"):
    print("note: no cvc5, undecided obligations will stay undecided")
subprocess.run(["/opt/venv/bin/python", "-c", "import sys"], check=True)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "out"):
    os.makedirs(os.path.join(root, d), exist_ok=True)
print("ok", sys.version.split()[0])
