"""Path exploration, assumptions and proof obligations.

A function under contract is executed once per feasible path (re-execution with a
decision script).  Every branch on a symbolic condition asks the solver which sides are
feasible; every contract clause becomes an obligation `path condition => clause` whose
negation must be unsatisfiable.
"""
import time
import traceback

import z3

from . import finite

RLIMIT_MS = 15000


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut at a loop back edge)."""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None:
            CTX.dead = True


class Unsupported(BaseException):
    """The code left the subset the verifier understands."""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None:
            CTX.dead = True
            CTX.unsupported = self


class Poison:
    """Value of a variable the loop cut knows nothing about."""

    def __init__(self, why="loop-havocked"):
        object.__setattr__(self, "_why", why)

    def __getattr__(self, name):
        raise Unsupported(f"use of {self._why} value (.{name})")

    def _bad(self, *a, **k):
        raise Unsupported(f"use of {self._why} value")

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __mod__ = __floordiv__ = __truediv__ = __getitem__ = __setitem__ = _bad
    __len__ = __iter__ = __call__ = __index__ = __int__ = __contains__ = _bad
    __hash__ = object.__hash__


UNBOUND = Poison("unbound")


class Obligation:
    __slots__ = ("name", "tag", "path", "status", "backend", "secs", "model", "smt2", "detail")

    def __init__(self, name, tag, path, status, backend, secs, model=None, smt2=None, detail=None):
        self.name, self.tag, self.path, self.status = name, tag, path, status
        self.backend, self.secs, self.model, self.smt2, self.detail = (
            backend, secs, model, smt2, detail)

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


CTX = None


def ctx():
    if CTX is None:
        raise PathEnd()
    return CTX


class Ctx:
    def __init__(self, script, opts):
        self.script = list(script)
        self.pos = 0
        self.todo = []
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("timeout_ms", RLIMIT_MS))
        self.opts = opts
        self.n = 0
        self.obls = []
        self.inputs = {}  # name -> symbolic input, for counterexamples
        self.seen_facts = set()
        self.keep = []
        self.le_memo = {}
        self.session = None
        self.assume_log = []
        self.zmemo = []
        self.solver_s = 0.0
        self.queries = 0
        self.trace = []
        self.covers = []
        self.dead = False
        self.unsupported = None
        self.clock_log = []
        self.rendered = []

    # -- names
    def fresh(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    # -- assertions
    def add(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.solver.add(f)

    def fact(self, key, f):
        """A fact true of every model of the domain (e.g. a byte is 0..255)."""
        if key in self.seen_facts:
            return
        self.seen_facts.add(key)
        self.solver.add(f)

    def check(self, f=None):
        t = time.time()
        self.queries += 1
        if f is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(f)
            r = self.solver.check()
            self.solver.pop()
        self.solver_s += time.time() - t
        return r

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        s = z3.simplify(c)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathEnd()
        self.solver.add(c)
        self.assume_log.append(c)
        if len(self.assume_log) % 1 == 0 and self.check() == z3.unsat:
            raise PathEnd()

    def implied(self, c):
        """True if the path condition entails c (False also when undecided)."""
        c = tobool(c)
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    # -- branching
    def choose(self, conds):
        if self.dead:
            raise self.unsupported or PathEnd()
        if self.pos < len(self.script):
            i = self.script[self.pos]
            self.pos += 1
            self.add(conds[i])
            return i
        feas = []
        for i, c in enumerate(conds):
            if c is False:
                continue
            if c is True:
                feas.append(i)
                continue
            if self.check(c) != z3.unsat:
                feas.append(i)
        if not feas:
            raise PathEnd()
        for j in feas[1:]:
            self.todo.append(self.script[: self.pos] + [j])
        self.script.append(feas[0])
        self.pos += 1
        self.add(conds[feas[0]])
        return feas[0]

    def branch(self, c):
        c = tobool(c)
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    # -- obligations
    def prove(self, name, goal, tag="", detail=None, hint=None):
        if self.dead:
            raise self.unsupported or PathEnd()
        goal = tobool(goal)
        t = time.time()
        path = list(self.script[: self.pos])
        if isinstance(goal, bool):
            if goal:
                self.obls.append(Obligation(name, tag, path, "proved", "simplify", 0.0))
                return True
            g = z3.BoolVal(False)
        else:
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.obls.append(
                    Obligation(name, tag, path, "proved", "simplify", time.time() - t))
                return True
            g = goal
        if self.opts.get("skip_goals"):
            return True             # looking for an invariant: the proof comes afterwards
        small = finite.candidate(g) and finite.domain(self.solver.assertions(), g)
        self.solver.push()
        self.solver.add(z3.Not(g))
        self.queries += 1
        if small:
            self.solver.set("timeout", 2000)
        r = self.solver.check()
        backend = "z3"
        model = smt2 = point = None
        if small:
            self.solver.set("timeout", self.opts.get("timeout_ms", RLIMIT_MS))
            if r == z3.unknown:
                d = finite.decide(list(self.solver.assertions())[:-1], g)
                if d is not None:
                    r, backend, point = (z3.unsat if d[0] else z3.sat), "enumeration", d[1]
                else:
                    r = self.solver.check()
        if backend == "z3" and (r == z3.unknown or self.opts.get("cvc5_all")):
            smt2 = to_smt2(self.solver)
            r2 = cvc5_check(smt2, self.opts.get("cvc5_s", 40))
            if r == z3.unknown:
                if r2 == "unsat":
                    r, backend = z3.unsat, "cvc5"
            elif r2 in ("sat", "unsat") and r2 != str(r):
                self.obls.append(Obligation(
                    name + ":backend-disagreement", tag, path, "failed", f"z3={r},cvc5={r2}",
                    time.time() - t, None, smt2, detail))
            elif r2 == str(r):
                backend = "z3+cvc5"
        if r == z3.sat and point is None:
            model = self.extract_model(self.solver)
        elif r == z3.sat:
            self.solver.push()
            for n, v in point.items():
                self.solver.add(z3.Int(n) == v)
            model = self.extract_model(self.solver)
            self.solver.pop()
        if r != z3.unsat and smt2 is None:
            smt2 = to_smt2(self.solver)
        self.solver.pop()
        dt = time.time() - t
        self.solver_s += dt
        status = "proved" if r == z3.unsat else ("failed" if r == z3.sat else "unknown")
        self.obls.append(Obligation(
            name, tag, path, status, backend, dt, model,
            smt2 if status != "proved" else None, detail))
        if status != "proved":
            if isinstance(goal, bool):
                raise PathEnd()
            self.solver.add(g)
            if self.check() == z3.unsat:
                raise PathEnd()
        return status == "proved"

    def cover(self, name):
        """Reachability behind the preconditions: guards against vacuous proofs."""
        self.covers.append((name, self.check() == z3.sat))

    def extract_model(self, solver):
        # prefer small inputs: try to bound every symbolic length
        lens = [v.length_term() for v in self.inputs.values() if hasattr(v, "length_term")]
        lens = [x for x in lens if not isinstance(x, int)]
        m = None
        for cap in (8, 64, 300, 2000):
            if not lens:
                break
            solver.push()
            for x in lens:
                solver.add(x <= cap + 200)
            self.queries += 1
            if solver.check() == z3.sat:
                m = solver.model()
                solver.pop()
                break
            solver.pop()
        if m is None:
            if solver.check() != z3.sat:
                return None
            m = solver.model()
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = concretize(m, v)
            except Exception as e:  # noqa: BLE001 - a model is best effort
                out[k] = f"<{e}>"
        return out


def concretize(m, v):
    from . import values as V

    t = type(v)
    if t is V.SymInt:
        return m.eval(v.t, model_completion=True).as_long()
    if t is V.SymBool:
        return z3.is_true(m.eval(v.t, model_completion=True))
    if t in (V.SymBytes, V.SymByteArray, V.SymMemView):
        r = v if t is V.SymBytes else v.v
        n = r.n
        if not isinstance(n, int):
            n = m.eval(n, model_completion=True).as_long()
        if n > 5000:
            return {"hex": "", "len": n, "truncated": True}
        bs = bytes(
            m.eval(V.ii(r.at(i)), model_completion=True).as_long() & 255 for i in range(n))
        return {"hex": bs.hex()}
    if t is V.SymStr:
        return {"enc": v.codec, **concretize(m, v.rope)}
    if t is V.SymF64:
        return {"f64": concretize(m, V.SymBytes.of(v.segs))}
    if isinstance(v, dict):
        return {k: concretize(m, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [concretize(m, x) for x in v]
    if isinstance(v, bytes):
        return {"hex": v.hex()}
    if v is None or isinstance(v, (int, str, float, bool)):
        return int(v) if isinstance(v, int) and not isinstance(v, bool) else v
    return repr(v)


def tobool(c):
    from . import values as V

    if type(c) is V.SymBool:
        return c.t
    if isinstance(c, bool):
        return c
    if isinstance(c, z3.BoolRef):
        return c
    if c is NotImplemented:
        return False
    raise Unsupported(f"not a boolean: {type(c)}")


def to_smt2(solver):
    try:
        return "(set-logic ALL)\n" + solver.to_smt2()
    except Exception:  # noqa: BLE001
        return None


def cvc5_check(smt2, secs):
    if smt2 is None:
        return "unknown"
    import subprocess

    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={int(secs * 1000)}"],
            input=smt2, capture_output=True, text=True, timeout=secs + 10, check=False)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:  # noqa: BLE001
        return "unknown"


class Result:
    """Outcome of verifying one contract."""

    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.unsupported = []
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.covers = {}
        self.functions = set()
        self.assumed = set()
        self.contracts_used = set()
        self.inlined = set()

    def ok(self, tags=None):
        if self.unsupported or not self.covers or not all(self.covers.values()):
            return False
        rel = [o for o in self.obls if tags is None or o.tag in tags]
        return bool(rel) and all(o.status == "proved" for o in rel)


FINGER = None     # module state of the library, set by the runner


def explore(name, driver, opts=None, make_session=None):
    """Run `driver(ctx)` over all feasible paths and collect its obligations."""
    global CTX
    opts = dict(opts or {})
    res = Result(name)
    t0 = time.time()
    work = [[]]
    maxpaths = opts.get("max_paths", 4000)
    budget = opts.get("budget_s", 240)
    while work:
        script = work.pop()
        if res.paths >= maxpaths or time.time() - t0 > budget:
            res.unsupported.append(
                f"exploration budget exceeded ({res.paths} paths, {time.time() - t0:.0f}s)")
            break
        c = Ctx(script, opts)
        CTX = c
        if make_session:
            c.session = make_session(c)
        try:
            driver(c)
        except PathEnd:
            pass
        except Unsupported as e:
            res.unsupported.append(f"{e} [{_where(e)}]")
        except (TypeError, AttributeError, NotImplementedError) as e:
            msg = f"{type(e).__name__}: {e} [{_where(e)}]"
            res.unsupported.append(msg)
        except RecursionError:
            res.unsupported.append("recursion limit")
        except Exception as e:  # noqa: BLE001
            res.unsupported.append(f"driver exception {type(e).__name__}: {e} [{_where(e)}]")
            if opts.get("debug"):
                traceback.print_exc()
        finally:
            CTX = None
        res.paths += 1
        if FINGER is not None:
            what = FINGER.changed()
            if what:
                res.unsupported.append(f"module state is changed: {what}")
                break
        res.obls += c.obls
        res.solver_s += c.solver_s
        res.queries += c.queries
        for nm, ok in c.covers:
            res.covers[nm] = res.covers.get(nm, False) or ok
        if c.session is not None:
            res.functions |= getattr(c.session, "functions", set())
            res.contracts_used |= getattr(c.session, "contracts_used", set())
        work += c.todo
        if len(res.unsupported) > 20:
            break
        if sum(o.status != "proved" for o in res.obls) > opts.get("max_failures", 40):
            break
    res.wall = time.time() - t0
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    repo = [f for f in tb if "/src/vblf/" in f.filename]
    f = (repo or tb)[-1]
    return f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}"
