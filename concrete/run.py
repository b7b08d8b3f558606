"""Concrete side of a check: replay given cases and search for failing inputs.

usage: run.py PROP --seed N --budget SECONDS [--cases FILE] [--deep] [--max N]
Prints one JSON object: {"fail": case or null, "message": ..., "cases": n, ...}
"""
import argparse
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Hang(Exception):
    pass


def alarm(*_a):
    raise Hang("no answer within 20 s")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=3.0)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--cases")
    ap.add_argument("--deep", action="store_true")
    ap.add_argument("--focus")
    a = ap.parse_args()
    out = {"fail": None, "message": None, "cases": 0, "from": None, "skipped": 0}
    try:
        import props
    except BaseException as e:  # noqa: BLE001
        out["message"] = f"the library cannot be imported: {type(e).__name__}: {e}"
        out["fail"] = {"k": "import"}
        print(json.dumps(out))
        return
    gen, run = props.PROPS[a.prop]
    props.FOCUS = a.focus

    def one(case):
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            return run(case)
        except props.Skip:
            out["skipped"] += 1
            return None
        except Hang as e:
            return f"{e}"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def attempt(case, src):
        try:
            m = one(case)
        except Exception as e:  # noqa: BLE001
            frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
            if src == "given" and not any("/vblf/" in f for f in frames):
                # a solver's counterexample this property's replay cannot express
                out["skipped"] += 1
                return False
            m = f"unexpected {type(e).__name__}: {e} ({traceback.format_exc().splitlines()[-3].strip()})"
        out["cases"] += 1
        if m:
            out.update(fail=case, message=m)
            out["from"] = src
            return True
        return False

    if a.cases:
        for case in json.load(open(a.cases)):
            if attempt(case, "given"):
                print(json.dumps(out))
                return
    rng = random.Random(f"{a.prop}/{a.seed}")
    t0 = time.time()
    i = 0
    while time.time() - t0 < a.budget and i < a.max:
        case = gen(rng, i, a.deep and i % 4 == 0)
        if attempt(case, f"search seed={a.seed} case={i}"):
            break
        i += 1
    out["wall"] = time.time() - t0
    print(json.dumps(out))


if __name__ == "__main__":
    main()
