"""Decides an obligation over few bounded integers by evaluating it at every point.

Used where the solvers give no answer: the free variables of the goal have constant bounds among
the path's conditions and their ranges multiply to at most LIMIT points.  Only conditions over the
goal's own variables are kept (dropping the others proves more).  The calendar functions are
evaluated natively.
"""

import z3

LIMIT = 4_000_000
CHUNK = 400_000


class No(Exception):
    pass


def free(e, memo):
    """the uninterpreted constants in e"""
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_quantifier(e):
        raise No
    r = frozenset()
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([e.decl().name()])
    for x in e.children():
        r |= free(x, memo)
    memo[k] = r
    return r


def bounds(asserts, names):
    lo, hi = {}, {}

    def atom(f, neg=False):
        if z3.is_not(f):
            return atom(f.arg(0), not neg)
        if z3.is_and(f) and not neg:
            for x in f.children():
                atom(x)
            return
        k = f.decl().kind()
        if f.num_args() != 2:
            return
        a, b = f.children()
        if k == z3.Z3_OP_EQ and not neg:
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and z3.is_int_value(y) and x.decl().name() in names:
                    put(x, y.as_long(), y.as_long())
            return
        ops = {z3.Z3_OP_LE: 0, z3.Z3_OP_GE: 1, z3.Z3_OP_LT: 2, z3.Z3_OP_GT: 3}
        if k not in ops:
            return
        o = ops[k]
        if neg:
            o = {0: 3, 1: 2, 2: 1, 3: 0}[o]
        if z3.is_int_value(a):
            a, b, o = b, a, {0: 1, 1: 0, 2: 3, 3: 2}[o]
        if not (z3.is_const(a) and z3.is_int_value(b) and a.decl().name() in names):
            return
        v = b.as_long()
        put(a, *((None, v), (v, None), (None, v - 1), (v + 1, None))[o])

    def put(x, a, b):
        n = x.decl().name()
        if a is not None:
            lo[n] = max(lo.get(n, a), a)
        if b is not None:
            hi[n] = min(hi.get(n, b), b)

    for f in asserts:
        atom(f)
    return lo, hi


def ordinal(np, y, m, d):
    before = np.array([0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334], dtype=np.int64)
    p = y - 1
    lp = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
    return 365 * p + p // 4 - p // 100 + p // 400 + before[np.clip(m, 0, 12)] + (
        (m > 2) & lp).astype(np.int64) + d


def evaluate(np, e, env, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = memo[k] = _evaluate(np, e, env, memo)
    return r


def _evaluate(np, e, env, memo):
    if z3.is_int_value(e):
        v = e.as_long()
        if abs(v) > 1 << 40:
            raise No
        return np.int64(v)
    if z3.is_true(e) or z3.is_false(e):
        return np.bool_(z3.is_true(e))
    d = e.decl()
    kind = d.kind()
    if kind == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0:
            return env[d.name()]
        xs = [evaluate(np, x, env, memo) for x in e.children()]
        if d.name() == "Weekday":
            return (ordinal(np, *xs) + 6) % 7
        if d.name() == "Ordinal":
            return ordinal(np, *xs)
        raise No
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = [evaluate(np, x, env, memo) for x in e.children()]
        return np.where(c, a, b)
    xs = [evaluate(np, x, env, memo) for x in e.children()]
    if kind == z3.Z3_OP_ADD:
        return sum(xs[1:], xs[0])
    if kind == z3.Z3_OP_SUB:
        r = xs[0]
        for x in xs[1:]:
            r = r - x
        return r
    if kind == z3.Z3_OP_UMINUS:
        return -xs[0]
    if kind == z3.Z3_OP_MUL:
        r = xs[0]
        for x in xs[1:]:
            if float(np.max(np.abs(r))) * float(np.max(np.abs(x))) > 2.0 ** 60:
                raise No
            r = r * x
        return r
    if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        if not z3.is_int_value(e.arg(1)) or e.arg(1).as_long() <= 0:
            raise No
        return xs[0] // xs[1] if kind == z3.Z3_OP_IDIV else xs[0] % xs[1]
    if kind == z3.Z3_OP_LE:
        return xs[0] <= xs[1]
    if kind == z3.Z3_OP_GE:
        return xs[0] >= xs[1]
    if kind == z3.Z3_OP_LT:
        return xs[0] < xs[1]
    if kind == z3.Z3_OP_GT:
        return xs[0] > xs[1]
    if kind == z3.Z3_OP_EQ:
        return xs[0] == xs[1]
    if kind == z3.Z3_OP_DISTINCT and len(xs) == 2:
        return xs[0] != xs[1]
    if kind == z3.Z3_OP_NOT:
        return ~xs[0]
    if kind == z3.Z3_OP_AND:
        r = np.bool_(True)
        for x in xs:
            r = r & x
        return r
    if kind == z3.Z3_OP_OR:
        r = np.bool_(False)
        for x in xs:
            r = r | x
        return r
    if kind == z3.Z3_OP_IMPLIES:
        return ~xs[0] | xs[1]
    if kind == z3.Z3_OP_XOR:
        return xs[0] ^ xs[1]
    raise No


def candidate(goal, nodes=4000):
    """a goal over few integers with division or remainder in it"""
    names, seen, todo, div = set(), set(), [goal], False
    while todo:
        e = todo.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > nodes or z3.is_quantifier(e):
            return False
        d = e.decl()
        kind = d.kind()
        if kind == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                names.add(d.name())
                if len(names) > 4:
                    return False
            elif d.name() not in ("Weekday", "Ordinal"):
                return False
        elif kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            div = True
        todo += e.children()
    return div and bool(names)


def domain(asserts, goal):
    """({name: (lo, hi)}, the conditions over these names) or None"""
    try:
        memo = {}
        names = free(goal, memo)
        if not names or len(names) > 4:
            return None
        own = []
        for f in asserts:
            try:
                v = free(f, memo)
            except No:
                continue
            if v and v <= names:
                own.append(f)
        lo, hi = bounds(own, names)
        dom, size = {}, 1
        for n in sorted(names):
            if n not in lo or n not in hi:
                return None
            dom[n] = (lo[n], hi[n])
            size *= max(0, hi[n] - lo[n] + 1)
            if size > LIMIT:
                return None
        return dom, own
    except No:
        return None


def decide(asserts, goal):
    """(True, None) proved, (False, point) refuted, None: not decided here"""
    d = domain(asserts, goal)
    if d is None:
        return None
    try:
        import numpy as np
    except ImportError:
        return None
    dom, own = d
    names = list(dom)
    # the widest range is laid out in chunks of whole grids
    names.sort(key=lambda n: dom[n][1] - dom[n][0])
    inner = 1
    for n in names[:-1]:
        inner *= dom[n][1] - dom[n][0] + 1
    step = max(1, CHUNK // max(1, inner))
    last = names[-1]
    try:
        for start in range(dom[last][0], dom[last][1] + 1, step):
            stop = min(dom[last][1], start + step - 1)
            axes = [np.arange(dom[n][0], dom[n][1] + 1, dtype=np.int64) for n in names[:-1]]
            axes.append(np.arange(start, stop + 1, dtype=np.int64))
            grid = np.meshgrid(*axes, indexing="ij")
            env = {n: g.ravel() for n, g in zip(names, grid)}
            memo = {}
            ok = np.broadcast_to(evaluate(np, goal, env, memo), env[last].shape)
            if ok.all():
                continue
            bad = ~ok
            for f in own:
                bad = bad & evaluate(np, f, env, memo)
            if bad.any():
                k = int(np.argmax(bad))
                return False, {n: int(env[n][k]) for n in names}
        return True, None
    except No:
        return None


