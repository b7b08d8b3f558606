"""One check: discharge the contracts behind a property on /repo's current source.

usage: python3-vt checks/run.py PROP [--tier quick|thorough]
Exit 0: every obligation discharged.  Exit 1: a VIOLATION line names the replay file.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
CPY = "/opt/venv/bin/python"

TRUSTED = [
    "z3 (quick tier; cvc5 1.1.2 additionally on every obligation in the thorough tier)",
    "pyvc's semantics of the Python subset used (integers, byte ropes, calls, branches, loops)",
    "pyvc's models of struct, zlib (uninterpreted, decompress(compress(x)) = x), io streams, "
    "codecs, datetime, time, enum; dataclasses and enum run as they are in CPython",
    "little-endian host for native struct formats",
    "spec/layout.py, the BLF layout written down from the format",
]


class Stop(BaseException):
    pass


def work(i):
    unit, opts = TODO[i]
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(Stop()))
    signal.setitimer(signal.ITIMER_REAL, opts["unit_s"])
    t0 = time.time()
    d = {"i": i, "id": unit.id, "obls": [], "unsupported": [], "covers": {}, "functions": [],
         "contracts": [], "paths": 0, "solver_s": 0.0, "queries": 0}
    try:
        from pyvc import core
        core.FINGER = FINGER
        r = unit.fn(opts)
        d.update(obls=[o.as_dict() for o in r.obls], unsupported=r.unsupported[:5],
                 covers=r.covers, functions=sorted(r.functions),
                 contracts=sorted(r.contracts_used), paths=r.paths, solver_s=r.solver_s,
                 queries=r.queries)
    except Stop:
        d["unsupported"].append(f"no answer within {opts['unit_s']} s")
    except BaseException as e:  # noqa: BLE001
        d["unsupported"].append(f"{type(e).__name__}: {e} "
                                f"{traceback.format_exc().strip().splitlines()[-3].strip()}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    d["wall"] = time.time() - t0
    return d


TODO = []
FINGER = None


def concrete(prop, seed, budget, cases=None, deep=False, focus=None):
    cmd = [CPY, os.path.join(VERIF, "concrete", "run.py"), prop, "--seed", str(seed),
           "--budget", str(budget)]
    if cases:
        cmd += ["--cases", cases]
    if deep:
        cmd.append("--deep")
    if focus:
        cmd += ["--focus", focus]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def collect(p, limit):
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return {"fail": None, "cases": 0, "message": None, "error": "search timed out"}
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:  # noqa: BLE001
        return {"fail": None, "cases": 0, "message": None, "error": (err or out)[-800:]}


def known(prop):
    """known findings of this property: (key, text)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} "):
                out.append(line.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out_dir = os.path.join(VERIF, "out")
    os.makedirs(out_dir, exist_ok=True)
    prop = a.prop

    # 1. search for failing inputs, next to the proof
    nproc = 0 if a.no_search else (4 if thorough else 2)
    budget = 180 if thorough else 6
    searches = [concrete(prop, seed * 1000 + k, budget, deep=thorough or k % 2 == 1)
                for k in range(nproc)]

    # 2. the proof
    opts = {"timeout_ms": 60000 if thorough else 15000, "cvc5_s": 60 if thorough else 20,
            "budget_s": 600 if thorough else 200, "unit_s": 650 if thorough else 240,
            "cvc5_all": thorough}
    results, broken, lib = [], [], None
    try:
        results, lib = prove(prop, opts, a.jobs)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        broken.append(f"{type(e).__name__}: {e} [{where(e)}]")

    # 3. judge
    failures, obligations, discharged, backends, functions, contracts = [], 0, 0, {}, set(), set()
    for unit, d in results:
        rel = [o for o in d["obls"] if unit.tags is None or o["tag"] in unit.tags]
        obligations += len(rel)
        for o in rel:
            if o["status"] == "proved":
                discharged += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                failures.append((unit, o["name"], o["status"], o["model"], o["detail"],
                                 o["smt2"]))
        for u in d["unsupported"]:
            failures.append((unit, f"{d['id']}: brought within the verifier's reach",
                             "unsupported", None, u, None))
        for c, ok in d["covers"].items():
            if not ok:
                failures.append((unit, f"{c}: precondition is satisfiable", "vacuous", None,
                                 None, None))
        if not rel and not d["unsupported"] and not unit.meta.get("empty"):
            failures.append((unit, f"{d['id']}: states obligations", "vacuous", None, None, None))
        functions |= set(d["functions"])
        contracts |= set(d["contracts"])
    for b in broken:
        failures.append((None, "the library's source is within the verifier's reach",
                         "unsupported", None, b, None))
    if not results and not broken:
        failures.append((None, "there are units", "vacuous", None, None, None))

    # 4. failing inputs
    from checks import replay
    sres = [collect(p, budget + 90) for p in searches]
    ncases = sum(r.get("cases", 0) for r in sres)
    serr = [r["error"] for r in sres if r.get("error")]
    hit = next((r for r in sres if r.get("fail")), None)
    tried = 0
    if failures and not hit:
        cs = []
        for unit, name, _st, model, _d, _s in failures[:60]:
            if unit is not None and model:
                try:
                    cs += replay.cases(prop, unit, model, name)
                except Exception as e:  # noqa: BLE001
                    serr.append(f"model not convertible: {type(e).__name__}: {e}")
        tried = len(cs)
        foc = []
        for unit, *_ in failures:
            f = unit and (unit.meta.get("cls") or unit.meta.get("struct"))
            if f and f not in foc:
                foc.append(f)
        cf = os.path.join(out_dir, f"{prop}.cases.json")
        with open(cf, "w") as f:
            json.dump(cs, f)
        extra = [concrete(prop, seed * 1000 + 100 + k, 60 if thorough else 25,
                          cases=cf if k == 0 else None, deep=k % 2 == 1,
                          focus=foc[k % len(foc)] if foc and k != 7 else None)
                 for k in range(8)]
        for p in extra:
            r = collect(p, 160)
            ncases += r.get("cases", 0)
            if r.get("error"):
                serr.append(r["error"])
            if r.get("fail") and not hit:
                hit = r

    # 5. report
    bad = bool(failures or hit)
    if serr and not bad and not any(r.get("cases") for r in sres):
        # the falsifier itself could not run: the library does not work under CPython
        failures.append((None, "the falsifier runs", "unsupported", None, serr[0], None))
        bad = True
    path = None
    if bad:
        path = os.path.join(out_dir, f"{prop}.replay.json")
        with open(path, "w") as f:
            json.dump({
                "property": prop, "failing_input": hit and hit["fail"],
                "observed": hit and hit["message"], "found_by": hit and hit.get("from"),
                "how_to_replay": f"put the failing_input in a JSON list FILE; {CPY} "
                                 f"{VERIF}/concrete/run.py {prop} --budget 0 --cases FILE",
                "failed_obligations": [
                    {"unit": u.id if u else None, "obligation": n, "status": st,
                     "model": m, "detail": dt, "smt2": (s or "")[:20000]}
                    for u, n, st, m, dt, s in failures[:25]],
            }, f, indent=1, default=str)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python3-vt checks/run.py {prop} --tier {a.tier}",
            "trusted_base": TRUSTED,
            "by_backend": backends,
            "units": len(results), "paths": sum(d["paths"] for _, d in results),
            "solver_queries": sum(d["queries"] for _, d in results),
            "solver_s": round(sum(d["solver_s"] for _, d in results), 2),
            "functions_under_contract": sorted(f for f in functions if f.startswith("vblf."))[:200],
            "verifier_models_used": sorted(f for f in functions if not f.startswith("vblf."))[:80],
            "contracts_used_at_calls": sorted(contracts)[:80],
            "failed_obligations": [f"{n} ({st})" for _u, n, st, *_ in failures[:20]],
            "source": lib.files if lib else {},
            "falsifier_cases": ncases, "counterexamples_replayed": tried,
            "falsifier_errors": serr[:3],
            "unit_list": [f"{d['id']}: {len(d['obls'])} obligations, {d['paths']} paths, "
                          f"{d['wall']:.1f}s" for _, d in results][:150],
        },
        "assumptions": assumptions(prop),
        "wall_s": round(wall, 2), "violations": 1 if bad else 0,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print(f"KNOWN-FINDING: {k[len('known: '):]}")
    print(f"{prop} [{a.tier}] {discharged}/{obligations} obligations discharged in "
          f"{len(results)} units, {ncases} concrete cases, {wall:.1f} s")
    if a.v or bad:
        for u, n, st, m, dt, _s in failures[:12]:
            print(f"  not discharged ({st}): {n}" + (f" -- {dt}" if dt else ""))
        if hit:
            print(f"  failing input: {hit['message']}")
    if bad:
        rel = os.path.relpath(path, VERIF)
        print(f"VIOLATION property={prop} replay={rel}" + (
            "" if hit else " no-failing-input-found"))
        return 1
    return 0


def prove(prop, opts, jobs):
    global FINGER, TODO
    from checks import units as U
    from pyvc import loader
    from spec import codec as C
    lib = loader.library()
    FINGER = lib.fingerprint()
    emb, proved = C.prove_embedded(dict(opts, cvc5_all=False)) if U.embedded_needed(prop) \
        else ({}, [])
    us = U.units(prop, tuple(proved), opts)
    TODO[:] = [(u, opts) for u in us]
    order = sorted(range(len(us)), key=lambda i: -us[i].meta.get("weight", 1))
    out = [None] * len(us)
    if jobs <= 1:
        for i in order:
            out[i] = work(i)
    else:
        with mp.get_context("fork").Pool(jobs) as pool:
            for d in pool.imap_unordered(work, order, chunksize=1):
                out[d["i"]] = d
    return list(zip(us, out)), lib


def assumptions(prop):
    from checks import assume
    return assume.GENERAL + assume.BY_PROP.get(prop, [])


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        raise
    except Exception as e:  # noqa: BLE001
        # no verdict could be reached: the obligations are not discharged
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        with open(os.path.join(VERIF, "out", f"{prop}.replay.json"), "w") as f:
            json.dump({"property": prop, "error": traceback.format_exc()}, f)
        print(f"VIOLATION property={prop} replay=out/{prop}.replay.json no-failing-input-found")
        sys.exit(1)
