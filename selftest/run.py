"""Differential test of the verifier's Python semantics against CPython.

Every snippet is executed by CPython on sample inputs and by pyvc on symbolic ones.  For each
sample the symbolic paths compatible with it are found; at least one has to give CPython's
result (otherwise the engine is unsound there), and all of them should (otherwise it is only
imprecise).  Not part of any check: it guards the machinery.

usage: python3-vt selftest/run.py [-n SAMPLES] [NAME-PREFIX...]
"""
import ast
import multiprocessing
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import z3  # noqa: E402
from pyvc import core, instrument, shims  # noqa: E402
from pyvc import values as V  # noqa: E402
from pyvc.loader import library  # noqa: E402

MAXLEN = 5
TEXTS = ["", "a", "ab\0", "\u20ac5", "xyz", "\xe4"]


def sample(kind, rng):
    if kind.startswith("int"):
        lo, hi = eval(kind[3:])
        return rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-9, 9)))])
    if kind in ("bytes", "bytearray"):
        n = rng.randrange(MAXLEN + 1)
        b = bytes(rng.choice([0, 65, 76, 255, 128, rng.randrange(256)]) for _ in range(n))
        return b if kind == "bytes" else bytearray(b)
    if kind.startswith("b") and kind[1:].isdigit():
        return bytes(rng.choice([0, 255, 127, 128, rng.randrange(256)]) for _ in range(int(kind[1:])))
    if kind == "bool":
        return rng.random() < .5
    if kind == "str":
        return rng.choice(TEXTS)
    raise ValueError(kind)


def symbolic(c, name, kind):
    if kind.startswith("int"):
        return V.fresh_int(name, *eval(kind[3:]))
    if kind in ("bytes", "bytearray"):
        v = V.fresh_bytes(name)
        c.add(V.ii(v.n) <= MAXLEN)
        if kind == "bytearray":
            v = V.SymByteArray(v)
            c.inputs[name] = v.v
        return v
    if kind.startswith("b") and kind[1:].isdigit():
        return V.fresh_bytes(name, int(kind[1:]))
    if kind == "bool":
        b = z3.Bool(c.fresh(name))
        v = V.mkbool(b)
        c.inputs[name] = v
        return v
    if kind == "str":
        v = V.fresh_text(name, "cp1252")
        c.add(V.ii(v.rope.n) <= MAXLEN)
        return v
    raise ValueError(kind)


def input_eq(v, x):
    if type(v) is V.SymInt:
        return v.t == x
    if type(v) is V.SymBool:
        return v.t if x else z3.Not(v.t)
    if type(v) is V.SymStr:
        return input_eq(v.rope, x.encode(v.codec))
    r = V.rope_of(v)
    x = bytes(x)
    return z3.And(V.ii(r.n) == len(x), *[V.ii(r.at(i)) == x[i] for i in range(len(x))])


KINDS = {V.SymInt: int, V.SymBool: bool, V.SymBytes: bytes, V.SymByteArray: bytearray,
         V.SymStr: str, V.SymF64: float, V.SymMemView: memoryview}


def result_eq(v, x):
    """formula: the symbolic result v is the concrete x (False when of another kind)"""
    if isinstance(x, (tuple, list)):
        if type(v) is not type(x) or len(v) != len(x):
            return z3.BoolVal(False)
        return z3.And(*[result_eq(a, b) for a, b in zip(v, x)], z3.BoolVal(True))
    if isinstance(x, (set, frozenset)):
        return z3.BoolVal(type(v) is type(x) and v == x)
    if isinstance(x, dict):
        if not isinstance(v, dict) or list(v) != list(x):
            return z3.BoolVal(False)
        return z3.And(*[result_eq(v[k], x[k]) for k in x], z3.BoolVal(True))
    t = type(v)
    if t in KINDS:
        k = KINDS[t]
        if k is int and v.cls is not None:
            k = v.cls
        if type(x).__name__ != k.__name__:
            return z3.BoolVal(False)
        if t is V.SymInt:
            return v.t == int(x)
        if t is V.SymF64:
            import struct
            return input_eq(V.SymBytes.of(v.segs), struct.pack("<d", x))
        return input_eq(v, x)
    if isinstance(v, (bytes, int, str, float, bytearray)) or v is None:
        if type(v).__name__ != type(x).__name__:
            return z3.BoolVal(False)
        return z3.BoolVal(v == x)
    if isinstance(v, type) and isinstance(x, type):
        return z3.BoolVal(v.__name__ == x.__name__)
    return z3.BoolVal(False)


def sig_of(src):
    fn = [n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef)][-1]
    return fn.name, [(a.arg, a.annotation.value) for a in fn.args.args]


def run_native(src, args):
    ns = {"__name__": "snippet"}
    exec(src, ns)
    name, _ = sig_of(src)
    try:
        return ("ok", ns[name](*args))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def run_symbolic(src):
    lib = library()
    name, sig = sig_of(src)
    import types
    m = types.ModuleType("vblf.snippet")
    m.__dict__["__builtins__"] = lib.env
    m.__dict__["__vc_own__"] = True
    sys.modules["vblf.snippet"] = m
    exec(instrument.instrument_module(src, "snippet.py"), m.__dict__)
    paths = []

    def driver(c):
        args = [symbolic(c, n, k) for n, k in sig]
        ins = [c.inputs[n] for n, _ in sig]
        try:
            r = ("ok", m.__dict__[name](*args))
        except (core.PathEnd, core.Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            if shims.modelling_error(e):
                raise core.Unsupported(f"{type(e).__name__}: {e}") from e
            r = ("exc", type(e).__name__)
        if c.check() != z3.unsat:
            paths.append((c, ins, r))
    res = core.explore(name, driver, {"budget_s": 60}, shims.Session)
    return paths, res.unsupported


def one(job):
    src, n, seed = job
    name, sig = sig_of(src)
    try:
        paths, unsup = run_symbolic(src)
    except Exception as e:  # noqa: BLE001
        return name, f"engine raised {type(e).__name__}: {e}", 0, 0
    if unsup:
        return name, f"unsupported: {unsup[0][:150]}", 0, 0
    rng = random.Random(seed)
    imprecise = 0
    for _ in range(n):
        args = [sample(k, rng) for _, k in sig]
        shown = repr(args)
        want = run_native(src, [bytearray(a) if isinstance(a, bytearray) else a for a in args])
        good = bad = 0
        for c, ins, got in paths:
            core.CTX = c
            s = z3.Solver()
            s.set("timeout", 10000)
            eqs = [input_eq(v, x) for v, x in zip(ins, args)]
            s.add(*c.solver.assertions(), *eqs)
            if s.check() != z3.sat:
                continue
            if got[0] != want[0]:
                bad += 1
                continue
            f = z3.BoolVal(got[1] == want[1]) if got[0] == "exc" else result_eq(got[1], want[1])
            s.add(*c.solver.assertions())
            s.push()
            s.add(f)
            good += s.check() == z3.sat
            s.pop()
            s.add(z3.Not(f))
            bad += s.check() == z3.sat
        if not good:
            outs = [g for a, i, g in paths]
            return name, f"UNSOUND on {shown}: CPython {want!r}, engine {outs[:4]!r}", len(paths), 0
        imprecise += bool(bad)
    return name, "imprecise" if imprecise else "ok", len(paths), imprecise


def main():
    a = sys.argv[1:]
    n = 40
    if a[:1] == ["-n"]:
        n, a = int(a[1]), a[2:]
    jobs = []
    for f in sorted(os.listdir(os.path.join(ROOT, "selftest"))):
        if f.startswith("snippets") and f.endswith(".txt"):
            for src in open(os.path.join(ROOT, "selftest", f)).read().split("\n----\n"):
                if src.strip() and (not a or any(sig_of(src)[0].startswith(p) for p in a)):
                    jobs.append((src, n, len(jobs)))
    bad = 0
    with multiprocessing.Pool(8, maxtasksperchild=20) as p:
        for name, msg, paths, imp in p.imap(one, jobs):
            if msg != "ok" or a:
                print(f"{name}: {msg} ({paths} paths{f', {imp} imprecise' if imp else ''})")
            bad += "UNSOUND" in msg or "engine raised" in msg
    print(f"{len(jobs)} snippets, {bad} bad")
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
