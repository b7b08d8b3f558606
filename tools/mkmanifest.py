"""Writes MANIFEST.json from the table of claimed checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "python3-vt"
DED = ("contract-based deductive verification: symbolic execution of the instrumented source "
       "into verification conditions discharged by z3")
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    n = NOTES.get(p["id"], {})
    if "not_applicable" in n or not n:
        na.append({"property": p["id"], "reason": n.get(
            "not_applicable", "the contracts for this property are not written yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} checks/run.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} checks/run.py {p['id']} --tier thorough",
        "technique": DED + n.get("technique", ""),
        "level": n.get("level", "proof"),
        "level_note": n["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": f"{PY} tools/setup.py",
    "hooks": {"guard": "none", "enable": "the checks need no hooks in /repo", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "pyvc (in /verif/pyvc) is the verification-condition generator; contracts are in "
             "/verif/spec, the concrete falsifier in /verif/concrete. See DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
