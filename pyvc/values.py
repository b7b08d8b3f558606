"""Symbolic counterparts of int, bool, bytes, bytearray, str and float.

Integers are mathematical (Python's are too).  A byte string is a rope of segments whose
bytes are z3 integers; base strings are z3 arrays Int -> Int with byte-range facts, so
lengths and contents are unbounded.
"""
import enum
import struct as _rstruct
import weakref

import z3

from . import core
from .core import PathEnd, Unsupported, ctx, tobool


# Text that stands for the rendering of something symbolic starts with this character; the
# shims refuse every operation that would have to look at such a text.
SYMTXT = "\ue000"


def fmt_marker(v):
    """decimal rendering of a symbolic int: a struct format may use it as a count"""
    c = ctx()
    c.rendered.append(v.t)
    return f"{SYMTXT}{len(c.rendered) - 1}\ue001"


# ----------------------------------------------------------------- integer helpers
def ii(x):
    """python int or z3 Int -> z3 Int"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def sim(t):
    """simplify a z3 Int term to a python int when it is constant"""
    if isinstance(t, int):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return s


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return sim(ii(a) + ii(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return sim(ii(a) - ii(b))


def unint(x):
    """SymInt / int / enum -> python int or z3 Int term; None if not an integer"""
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    return None


def mkint(t, cls=None):
    if isinstance(t, int):
        return cls(t) if cls is not None else t
    if z3.is_int_value(t):
        v = t.as_long()
        return cls(v) if cls is not None else v
    return SymInt(t, cls)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def is_sym(x):
    return type(x) in SYMTYPES


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.t if o else z3.Not(self.t))
        if type(o) is SymBool:
            return mkbool(self.t == o.t)
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkbool(unint(self) == u)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o):
        return mkbool(z3.And(self.t, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, tobool(o)))

    __ror__ = __or__

    def __add__(self, o):
        return SymInt(unint(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(unint(self)) * o

    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __index__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self


def snot(b):
    if isinstance(b, bool):
        return not b
    return mkbool(z3.Not(b.t))


class _NegDiv:
    def __init__(self, t):
        self.t = t


def is_flag(cls):
    return isinstance(cls, type) and issubclass(cls, enum.Flag)


class SymInt:
    """Symbolic int; `cls` is the enum class it is a member of, if any."""

    __slots__ = ("t", "cls")

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    # arithmetic
    def _bin(self, o, f):
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkint(sim(f(self.t, ii(u))))

    def __add__(self, o):
        if type(o) in (SymFloat, SymRatio):
            return NotImplemented
        if type(o) is float:
            return SymRatio.of(self) + o
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is float:
            return SymRatio.of(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if type(o) is float:
            return SymRatio.of(-self) + o
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray)) or type(o) in (SymBytes, SymByteArray):
            return repeat(o, self)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        if isinstance(o, float):
            return SymRatio.of(self) * o
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(sim(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __invert__(self):
        if is_flag(self.cls):
            raise Unsupported("~ of a symbolic flag")
        return mkint(sim(-self.t - 1))

    def _divisor(self, u):
        u = sim(u)
        if isinstance(u, int):
            if u == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return u
        if ctx().branch(u == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # decide the sign here: _fdiv and _fmod then see a divisor of known sign
        return u if ctx().branch(u > 0) else _NegDiv(u)

    @staticmethod
    def _fdiv(a, b):
        if type(b) is _NegDiv:
            return -a / -b.t
        if isinstance(b, int) and b < 0:
            return -a / ii(-b)
        return a / ii(b)

    @staticmethod
    def _fmod(a, b):
        if type(b) is _NegDiv:
            return -((-a) % -b.t)
        if isinstance(b, int) and b < 0:
            return -((-a) % ii(-b))
        return a % ii(b)

    def __floordiv__(self, o):
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkint(sim(self._fdiv(self.t, self._divisor(u))))

    def __mod__(self, o):
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkint(sim(self._fmod(self.t, self._divisor(u))))

    def __rfloordiv__(self, o):
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkint(sim(self._fdiv(ii(u), self._divisor(self.t))))

    def __rmod__(self, o):
        u = unint(o)
        if u is None:
            return NotImplemented
        return mkint(sim(self._fmod(ii(u), self._divisor(self.t))))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SymRatio.of(self) / o

    def __rtruediv__(self, o):
        raise Unsupported("true division by a symbolic int")

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("symbolic power")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("symbolic shift")

    def __rlshift__(self, o):
        k = self.__index__()
        return o << k

    def __rrshift__(self, o):
        k = self.__index__()
        return o >> k

    def _bitop(self, o, f, what):
        u = unint(o)
        if u is None:
            return NotImplemented
        u = sim(u)
        if not isinstance(u, int):
            raise Unsupported(f"{what} of two symbolic ints")
        cls = self.cls if is_flag(self.cls) else type(o) if is_flag(type(o)) else None
        if cls is not None and what != "&" and u < 0:
            raise Unsupported("negative operand of a flag enum")
        if cls is not None and self.cls is not cls and not ctx().implied(self.t >= 0):
            raise Unsupported("negative operand of a flag enum")
        return mkint(sim(f(self.t, u)), cls)

    def __and__(self, o):
        return self._bitop(o, and_const, "&")

    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, lambda t, u: t + u - and_const(t, u), "|")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, lambda t, u: t + u - 2 * and_const(t, u), "^")

    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, f):
        if type(o) in (SymRatio, SymFloat):
            return NotImplemented
        u = unint(o)
        if u is None:
            if isinstance(o, float) and o == int(o):
                u = int(o)
            else:
                return NotImplemented
        return mkbool(z3.simplify(f(self.t, ii(u))))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic int")

    def __index__(self):
        """Case split into the (few) values the path condition allows."""
        return concretize_int(self.t)

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of a symbolic int")

    def __repr__(self):
        return SYMTXT + "<SymInt>"

    def __format__(self, spec):
        return SYMTXT + "<SymInt>" if spec not in ("", "d") else fmt_marker(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def bit_length(self):
        t = z3.If(self.t < 0, -self.t, self.t)
        if not ctx().implied(t < 2**64):
            raise Unsupported("bit_length of an unbounded symbolic int")
        return mkint(sim(z3.Sum([z3.If(t >= 2**k, 1, 0) for k in range(64)])))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if not isinstance(length, int):
            length = length.__index__()
        bs = int_to_le(self, length, signed, OverflowError)
        r = SymBytes.of([Byte(t) for t in bs])
        return r if byteorder == "little" else SymBytes.of([Byte(t) for t in reversed(bs)])

    @property
    def value(self):
        if self.cls is None:
            raise AttributeError("'int' object has no attribute 'value'")
        return SymInt(self.t)

    @property
    def name(self):
        if self.cls is None:
            raise AttributeError("'int' object has no attribute 'name'")
        if is_flag(self.cls):
            raise Unsupported("name of a symbolic flag")
        for m in self.cls:
            if ctx().branch(self.t == m.value):
                return m.name
        raise Unsupported("name of a symbolic enum value")

    @property
    def real(self):
        return SymInt(self.t)

    def is_integer(self):
        return True


def concretize_int(t, limit=40):
    t = sim(t)
    if isinstance(t, int):
        return t
    c = ctx()
    vals = []
    c.solver.push()
    try:
        while len(vals) <= limit:
            if c.solver.check() != z3.sat:
                break
            v = c.solver.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            c.solver.add(t != v)
    finally:
        c.solver.pop()
    if len(vals) > limit:
        raise Unsupported("a concrete integer is needed where the value is unbounded")
    if not vals:
        raise PathEnd()
    vals.sort()
    return vals[c.choose([t == v for v in vals])]


def and_const(t, k):
    """t & k for constant k (t any integer, two's complement semantics)"""
    if k == 0:
        return z3.IntVal(0)
    if k < 0:
        # t & k = t - (t & ~k)
        return t - and_const(t, ~k)
    if (k & (k + 1)) == 0:
        return t % (k + 1)
    tot = z3.IntVal(0)
    b = 0
    while k >> b:
        if (k >> b) & 1:
            # maximal run of ones
            e = b
            while (k >> e) & 1:
                e += 1
            tot = tot + ((t / z3.IntVal(1 << b)) % z3.IntVal(1 << (e - b))) * (1 << b)
            b = e
        else:
            b += 1
    return tot


# ----------------------------------------------------------------- LE encoding
def int_to_le(x, n, signed, exc):
    """n little-endian byte terms of x; raises exc if x does not fit."""
    u = unint(x)
    if isinstance(u, int):
        return [z3.IntVal(b) for b in u.to_bytes(n, "little", signed=signed)]
    c = ctx()
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not c.branch(z3.And(u >= lo, u <= hi)):
        raise exc("argument out of range")
    return le_bytes_of(u, n, signed)


def le_bytes_of(u, n, signed=False):
    c = ctx()
    key = (u.get_id(), signed)
    m = c.le_memo.get(key)
    if m is not None:
        if not signed:
            if len(m) >= n:
                return list(m[:n])
            return list(m) + [z3.IntVal(0)] * (n - len(m))
        if len(m) == n:
            return list(m)
    bs = [z3.Int(c.fresh("b")) for _ in range(n)]
    for b in bs:
        c.add(z3.And(b >= 0, b <= 255))
    tot = z3.Sum([b * (1 << (8 * k)) for k, b in enumerate(bs)])
    if signed:
        c.add(z3.If(u < 0, u + (1 << (8 * n)), u) == tot)
    else:
        c.add(u == tot)
    c.le_memo[key] = bs
    c.keep.append(u)
    return list(bs)


def le_to_int(bs, signed=False):
    """value of little-endian byte terms"""
    bs = [z3.simplify(b) for b in bs]
    if all(z3.is_int_value(b) for b in bs):
        return int.from_bytes(bytes(b.as_long() for b in bs), "little", signed=signed)
    n = len(bs)
    c = ctx()
    # bytes that are exactly a known term's little-endian encoding decode to that term
    # (base-256 digits are unique); keeps terms small and round trips syntactic
    key = ("le", signed, tuple(b.get_id() for b in bs))
    hit = c.le_memo.get(key)
    if hit is not None:
        return SymInt(hit)
    tot = z3.simplify(z3.Sum([b * (1 << (8 * k)) for k, b in enumerate(bs)]) if n > 1 else bs[0])
    if signed:
        tot = z3.simplify(z3.If(tot >= (1 << (8 * n - 1)), tot - (1 << (8 * n)), tot))
    c.le_memo[(tot.get_id(), signed)] = list(bs)
    c.le_memo[key] = tot
    c.keep += [tot, *bs]
    return SymInt(tot)


# ----------------------------------------------------------------- rope segments
class Lit:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytes(b)

    @property
    def n(self):
        return len(self.b)

    def at(self, i):
        if isinstance(i, int):
            return z3.IntVal(self.b[i])
        if not self.b:
            return z3.IntVal(0)
        if len(set(self.b)) == 1:
            return z3.IntVal(self.b[0])
        t = z3.IntVal(self.b[-1])
        for k in range(len(self.b) - 2, -1, -1):
            t = z3.If(i == k, z3.IntVal(self.b[k]), t)
        return t

    def sub(self, lo, n):
        if isinstance(lo, int) and isinstance(n, int):
            return [Lit(self.b[lo : lo + n])]
        if len(set(self.b)) == 1:
            return [Fill(self.b[0], n)]
        return None


class Byte:
    __slots__ = ("t",)
    n = 1

    def __init__(self, t):
        self.t = t

    def at(self, i):
        return self.t

    def sub(self, lo, n):
        if isinstance(lo, int) and isinstance(n, int):
            return [self] if (lo == 0 and n == 1) else []
        return None


class Arr:
    __slots__ = ("a", "s", "n")

    def __init__(self, a, s, n):
        self.a, self.s, self.n = a, s, n

    def at(self, i):
        idx = iadd(self.s, i)
        t = z3.Select(self.a, ii(idx))
        c = ctx()
        c.fact(t.get_id(), z3.And(t >= 0, t <= 255))
        c.keep.append(t)
        return t

    def sub(self, lo, n):
        return [Arr(self.a, iadd(self.s, lo), n)]


class Fill:
    __slots__ = ("byte", "n")

    def __init__(self, byte, n):
        self.byte, self.n = byte, n

    def at(self, i):
        return z3.IntVal(self.byte)

    def sub(self, lo, n):
        return [Fill(self.byte, n)]


class View:
    """slice of a rope at offsets that do not resolve structurally"""

    __slots__ = ("r", "s", "n")

    def __init__(self, r, s, n):
        self.r, self.s, self.n = r, s, n

    def at(self, i):
        return self.r.at(iadd(self.s, i))

    def sub(self, lo, n):
        return [View(self.r, iadd(self.s, lo), n)]


def _norm(segs):
    out = []
    for s in segs:
        n = s.n
        if isinstance(n, int):
            if n == 0:
                continue
            if isinstance(s, Fill):
                if n <= 4096:
                    s = Lit(bytes([s.byte]) * n)
            elif isinstance(s, Byte) and z3.is_int_value(s.t):
                s = Lit(bytes([s.t.as_long()]))
            elif isinstance(s, View):
                r = s.r.slice_terms(s.s, n)
                if not (len(r.segs) == 1 and isinstance(r.segs[0], View)):
                    out += r.segs
                    continue
        if out:
            p = out[-1]
            if isinstance(p, Lit) and isinstance(s, Lit):
                out[-1] = Lit(p.b + s.b)
                continue
            if isinstance(p, Arr) and isinstance(s, Arr) and p.a.get_id() == s.a.get_id():
                d = isub(iadd(p.s, p.n), s.s)
                if isinstance(d, int) and d == 0:
                    out[-1] = Arr(p.a, p.s, iadd(p.n, s.n))
                    continue
            if isinstance(p, Fill) and isinstance(s, Fill) and p.byte == s.byte:
                out[-1] = Fill(p.byte, iadd(p.n, s.n))
                continue
        out.append(s)
    # canonical: runs of Byte that are consecutive selects of one array become Arr
    return _fold_selects(out)


def _sel(t):
    if z3.is_select(t):
        return t.arg(0), t.arg(1)
    return None


def _fold_selects(segs):
    out = []
    for s in segs:
        if isinstance(s, Byte):
            d = _sel(s.t)
            if d is not None and out and isinstance(out[-1], Arr):
                p = out[-1]
                if p.a.get_id() == d[0].get_id():
                    e = isub(iadd(p.s, p.n), sim(d[1]))
                    if isinstance(e, int) and e == 0:
                        out[-1] = Arr(p.a, p.s, iadd(p.n, 1))
                        continue
            if d is not None:
                out.append(Arr(d[0], sim(d[1]), 1))
                continue
        elif isinstance(s, Arr) and out and isinstance(out[-1], Arr):
            p = out[-1]
            if p.a.get_id() == s.a.get_id():
                e = isub(iadd(p.s, p.n), s.s)
                if isinstance(e, int) and e == 0:
                    out[-1] = Arr(p.a, p.s, iadd(p.n, s.n))
                    continue
        out.append(s)
    return out


class SymBytes:
    """immutable symbolic bytes"""

    __slots__ = ("segs", "n")

    def __init__(self, segs):
        self.segs = segs
        n = 0
        for s in segs:
            n = iadd(n, s.n)
        self.n = n

    @staticmethod
    def of(segs):
        return SymBytes(_norm(segs))

    @staticmethod
    def lit(b):
        return SymBytes([Lit(b)] if len(b) else [])

    def length_term(self):
        return self.n

    def at(self, i):
        """byte term at index i (0 <= i < n is the caller's business)"""
        if isinstance(i, int):
            p = 0
            for s in self.segs:
                n = s.n
                if not (isinstance(n, int) and isinstance(p, int)):
                    break
                if i < p + n:
                    return s.at(i - p)
                p += n
        p = 0
        parts = []
        for s in self.segs:
            e = iadd(p, s.n)
            parts.append((p, e, s))
            p = e
        if not parts:
            return z3.IntVal(0)
        p, e, s = parts[-1]
        t = s.at(isub(i, p))
        for p, e, s in reversed(parts[:-1]):
            cnd = z3.simplify(ii(i) < ii(e))
            if z3.is_true(cnd):
                t = s.at(isub(i, p))
            elif z3.is_false(cnd):
                pass
            else:
                t = z3.If(cnd, s.at(isub(i, p)), t)
        return t

    def slice_terms(self, lo, n):
        """rope for [lo, lo+n), assuming 0 <= lo <= lo+n <= len"""
        if isinstance(n, int) and n == 0:
            return SymBytes([])
        lo, n = sim(lo), sim(n)
        if isinstance(lo, int) and lo == 0:
            d = isub(self.n, n)
            if isinstance(d, int) and d == 0:
                return self
        if len(self.segs) == 1:
            r = self.segs[0].sub(lo, n)
            if r is not None:
                return SymBytes.of(r)
        a = self._locate(lo, False)
        if a is not None:
            b = self._locate(iadd(lo, n), True)
            if b is not None:
                return SymBytes.of(self._between(a, b))
        return SymBytes([View(self, lo, n)])

    def _locate(self, off, end):
        """(segment index, offset in it) when it resolves structurally or is implied"""
        p = 0
        for k, s in enumerate(self.segs):
            d = isub(off, p)
            if isinstance(d, int):
                if d < 0:
                    return None
                if d == 0 and not end:
                    return (k, 0)
                if isinstance(s.n, int):
                    if d < s.n or (end and d == s.n):
                        return (k, d)
                else:
                    r = isub(isub(iadd(p, s.n), off), 0)
                    if isinstance(r, int) and r >= 0:
                        return (k, d)
                    if core.CTX is not None and ctx().implied(ii(off) <= ii(iadd(p, s.n))):
                        return (k, d)
            else:
                r = isub(iadd(p, s.n), off)
                if isinstance(r, int):
                    if r == 0 and end:
                        return (k, s.n)
                    if r > 0:
                        return (k, d)
                elif core.CTX is not None:
                    c = ctx()
                    if end:
                        if c.implied(z3.And(ii(d) >= 0, ii(d) <= ii(s.n))):
                            return (k, s.n) if c.implied(ii(d) == ii(s.n)) else (k, d)
                    elif c.implied(d == 0):
                        return (k, 0)
                    elif c.implied(z3.And(ii(d) >= 0, ii(d) < ii(s.n))):
                        return (k, d)
            p = iadd(p, s.n)
        d = isub(off, p)
        if isinstance(d, int) and d == 0:
            return (len(self.segs), 0)
        if core.CTX is not None and not isinstance(d, int) and ctx().implied(d == 0):
            return (len(self.segs), 0)
        return None

    def _between(self, a, b):
        (i, x), (j, y) = a, b
        out = []
        for k in range(i, min(j, len(self.segs) - 1) + 1):
            s = self.segs[k]
            lo = x if k == i else 0
            hi = y if k == j else s.n
            if isinstance(lo, int) and lo == 0 and hi is s.n:
                out.append(s)
                continue
            n = isub(hi, lo)
            if isinstance(n, int) and n <= 0:
                continue
            r = s.sub(lo, n)
            if r is None:
                r = [View(SymBytes([s]), lo, n)]
            out += r
        return out

    # -- python protocol
    def __add__(self, o):
        r = rope_of(o)
        if r is None:
            return NotImplemented
        return SymBytes.of(self.segs + r.segs)

    def __radd__(self, o):
        r = rope_of(o)
        if r is None:
            return NotImplemented
        if isinstance(o, bytearray):
            return SymByteArray(SymBytes.of(r.segs + self.segs))
        return SymBytes.of(r.segs + self.segs)

    def __mul__(self, k):
        return repeat(self, k)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, n, step = norm_slice(i, self.n)
            if step == -1:
                k = sim(n)
                if not isinstance(k, int):
                    raise Unsupported("reversed slice of symbolic length")
                return SymBytes.of([Byte(self.at(iadd(lo, k - 1 - j))) for j in range(k)])
            return self.slice_terms(lo, n)
        return le_to_int([self.at(norm_index(i, self.n))])

    def __eq__(self, o):
        r = rope_of(o)
        if r is None:
            return NotImplemented
        return mkbool(rope_eq_formula(self, r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __bool__(self):
        return self.n > 0 if isinstance(self.n, int) else ctx().branch(ii(self.n) > 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __iter__(self):
        n = concretize_int(self.n) if not isinstance(self.n, int) else self.n
        for k in range(n):
            yield le_to_int([self.at(k)])

    def __contains__(self, x):
        u = unint(x)
        if u is not None and isinstance(self.n, int):
            return bool(mkbool(z3.Or([self.at(k) == u for k in range(self.n)])))
        p = rope_of(x)
        if p is not None and isinstance(p.n, int) and p.n:
            if isinstance(self.n, int) and self.n <= 512:
                return bool(mkbool(z3.Or([z3.And([ii(self.at(k + j)) == ii(p.at(j))
                                                  for j in range(p.n)])
                                          for k in range(self.n - p.n + 1)])))
            r = find_in(self, x, 0, None)
            return not (isinstance(r, int) and r < 0)
        raise Unsupported("`in` on symbolic bytes")

    def __repr__(self):
        return SYMTXT + "<SymBytes>"

    def __format__(self, s):
        return SYMTXT + "<SymBytes>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_rope(self, encoding, errors)

    def _sub(self, bounds):
        return rope_of(self[slice(*bounds)]) if bounds else self

    def startswith(self, p, *rest):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, *rest)) for q in p)
        r = rope_of(p)
        if r is None:
            raise TypeError("startswith first arg must be bytes or a tuple of bytes")
        if not isinstance(r.n, int):
            raise Unsupported("startswith symbolic-length prefix")
        if rest and r.n == 0:
            raise Unsupported("empty prefix with bounds")
        me = self._sub((*rest, None)[:2]) if rest else self
        if not ctx().branch(ii(me.n) >= r.n):
            return False
        return me.slice_terms(0, r.n) == r

    def endswith(self, p, *rest):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, *rest)) for q in p)
        r = rope_of(p)
        if r is None:
            raise TypeError("endswith first arg must be bytes or a tuple of bytes")
        if not isinstance(r.n, int):
            raise Unsupported("endswith symbolic-length suffix")
        if rest and r.n == 0:
            raise Unsupported("empty suffix with bounds")
        me = self._sub((*rest, None)[:2]) if rest else self
        if not ctx().branch(ii(me.n) >= r.n):
            return False
        return me.slice_terms(isub(me.n, r.n), r.n) == r

    def removeprefix(self, p):
        return self.slice_terms(rope_of(p).n, isub(self.n, rope_of(p).n)) if self.startswith(p) \
            else self

    def removesuffix(self, p):
        return self.slice_terms(0, isub(self.n, rope_of(p).n)) if self.endswith(p) else self

    def rjust(self, width, fill=b" "):
        if len(fill) != 1:
            raise TypeError("the fill character must be a byte string of length 1")
        w = unint(width)
        if not ctx().branch(ii(self.n) < ii(w)):
            return SymBytes.of(self.segs)
        return SymBytes.of([Fill(fill[0], isub(w, self.n)), *self.segs])

    def partition(self, sep):
        m = rope_of(sep).n
        if isinstance(m, int) and m == 0:
            raise ValueError("empty separator")
        k = self.find(sep)
        if k < 0:
            return self, b"", b""
        k = unint(k)
        e = iadd(k, m)
        return self.slice_terms(0, k), rope_of(sep), self.slice_terms(e, isub(self.n, e))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported("bytes.split")
        a, m, b = self.partition(sep)
        return [a, b] if len_pos(m) else [a]

    def count(self, x):
        u = unint(x)
        if u is None:
            r = rope_of(x)
            if r.n != 1 or not isinstance(r.n, int):
                raise Unsupported("count of a longer pattern")
            u = r.at(0)
        if not isinstance(self.n, int) or self.n > 64:
            raise Unsupported("count in bytes of symbolic length")
        return mkint(sim(z3.Sum([z3.If(ii(self.at(k)) == ii(u), 1, 0) for k in range(self.n)]
                                + [z3.IntVal(0)])))

    def ljust(self, width, fill=b" "):
        if len(fill) != 1:
            raise TypeError("the fill character must be a byte string of length 1")
        w = unint(width)
        if not ctx().branch(ii(self.n) < ii(w)):
            return SymBytes.of(self.segs)
        return SymBytes.of([*self.segs, Fill(fill[0], isub(w, self.n))])

    def join(self, it):
        if type(it) is SymPieces:
            if sim(self.n) != 0:
                raise Unsupported("join of an unknown list with a separator")
            return it.whole()
        out = None
        for x in it:
            r = rope_of(x)
            if r is None:
                raise Unsupported("join of non-bytes")
            out = r if out is None else SymBytes.of(out.segs + self.segs + r.segs)
        return out if out is not None else SymBytes([])

    def hex(self, *a):
        return SYMTXT + "<hex>"

    def find(self, sub, start=0, end=None):
        return find_in(self, sub, start, end)

    def index(self, sub, start=0, end=None):
        r = find_in(self, sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def _strip(self, right, chars):
        """the longest tail (head) of bytes from a constant set is cut off"""
        cs = rope_of(chars if chars is not None else b" \t\n\r\x0b\x0c")
        if not all(isinstance(x, Lit) for x in cs.segs):
            raise Unsupported("strip of symbolic characters")
        cs = sorted(set(b"".join(x.b for x in cs.segs)))
        c = ctx()
        k = z3.Int(c.fresh("strip"))
        j = z3.Int(c.fresh("q"))

        def cut(i):
            return z3.Or(*[ii(self.at(i)) == x for x in cs], z3.BoolVal(False))
        c.add(z3.And(k >= 0, k <= ii(self.n)))
        rng = z3.And(j >= k, j < ii(self.n)) if right else z3.And(j >= 0, j < k)
        if isinstance(self.n, int) and self.n <= 16:
            c.add(z3.And(*[z3.Implies(z3.substitute(rng, (j, z3.IntVal(i))), cut(z3.IntVal(i)))
                           for i in range(self.n)], z3.BoolVal(True)))
        else:
            c.add(z3.ForAll([j], z3.Implies(rng, cut(j))))
        edge = k - 1 if right else k
        c.add(z3.Or(k == (0 if right else ii(self.n)), z3.Not(cut(edge))))
        return self.slice_terms(0, k) if right else self.slice_terms(k, isub(self.n, k))

    def rstrip(self, chars=None):
        return self._strip(True, chars)

    def lstrip(self, chars=None):
        return self._strip(False, chars)

    def strip(self, chars=None):
        return rope_of(self.rstrip(chars)).lstrip(chars)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute '{name}'")
        raise Unsupported(f"bytes.{name} on symbolic bytes")


class SymByteArray:
    """mutable symbolic bytearray: a cell holding a rope"""

    __slots__ = ("_v", "views")

    def __init__(self, v=None):
        self.views = []         # memoryviews of it, dead and released ones included
        self._v = v if v is not None else SymBytes([])

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, r):
        if self.views:
            # CPython raises BufferError when an exported bytearray changes its size
            d = isub(r.n, self._v.n)
            if not (isinstance(d, int) and d == 0) and any(
                    m is not None and m.open for m in (w() for w in self.views)):
                raise Unsupported("resizing a bytearray a memoryview was taken of")
        self._v = r

    @property
    def n(self):
        return self.v.n

    def length_term(self):
        return self.v.n

    def at(self, i):
        return self.v.at(i)

    def extend(self, o):
        r = rope_of(o)
        if r is None:
            if isinstance(o, (list, tuple)) or hasattr(o, "__next__"):
                r = rope_of(bytes_from_iter(o))
            else:
                raise Unsupported("bytearray.extend of non-bytes")
        self.v = SymBytes.of(self.v.segs + r.segs)

    def append(self, x):
        bs = int_to_le(x, 1, False, ValueError)
        self.v = SymBytes.of([*self.v.segs, Byte(bs[0])])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = rope_of(o)
        if r is None:
            return NotImplemented
        return SymByteArray(SymBytes.of(self.v.segs + r.segs))

    def __radd__(self, o):
        r = rope_of(o)
        if r is None:
            return NotImplemented
        j = SymBytes.of(r.segs + self.v.segs)
        return SymByteArray(j) if isinstance(o, bytearray) else j

    def __getitem__(self, i):
        r = self.v[i]
        return SymByteArray(r) if isinstance(i, slice) else r

    def splice(self, lo, n, r):
        """replace [lo, lo+n) by r"""
        a = self.v.slice_terms(0, lo)
        b = self.v.slice_terms(iadd(lo, n), isub(self.v.n, iadd(lo, n)))
        self.v = SymBytes.of(a.segs + r.segs + b.segs)

    def __setitem__(self, i, val):
        if isinstance(i, slice):
            r = rope_of(val)
            if r is None:
                if isinstance(val, (list, tuple)):
                    r = rope_of(bytes_from_iter(val))
                else:
                    raise Unsupported("bytearray slice assignment of non-bytes")
            lo, n, step = norm_slice(i, self.v.n)
            if step != 1:
                raise Unsupported("extended slice assignment")
            self.splice(lo, n, r)
            return
        k = norm_index(i, self.v.n)
        bs = int_to_le(val, 1, False, ValueError)
        self.splice(k, 1, SymBytes.of([Byte(bs[0])]))

    def __delitem__(self, i):
        if isinstance(i, slice):
            lo, n, step = norm_slice(i, self.v.n)
            if step != 1:
                raise Unsupported("extended slice deletion")
            self.splice(lo, n, SymBytes([]))
            return
        self.splice(norm_index(i, self.v.n), 1, SymBytes([]))

    def clear(self):
        self.v = SymBytes([])

    def copy(self):
        return SymByteArray(self.v)

    def __eq__(self, o):
        return self.v == (o.v if type(o) is SymByteArray else o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __bool__(self):
        return bool(self.v)

    __hash__ = None

    def __iter__(self):
        return iter(self.v)

    def __contains__(self, x):
        return x in self.v

    def __mul__(self, k):
        return SymByteArray(rope_of(repeat(self.v, k)))

    __rmul__ = __mul__

    def decode(self, *a, **k):
        return self.v.decode(*a, **k)

    def startswith(self, *a):
        return self.v.startswith(*a)

    def endswith(self, *a):
        return self.v.endswith(*a)

    def find(self, *a):
        return self.v.find(*a)

    def join(self, it):
        return SymByteArray(self.v.join(it))

    def __repr__(self):
        return SYMTXT + "<SymByteArray>"

    def __deepcopy__(self, memo):
        return SymByteArray(self.v)

    __copy__ = copy

    def insert(self, i, x):
        self[i:i] = rope_of(bytes_from_iter([x]))

    def reverse(self):
        if not isinstance(self.v.n, int):
            raise Unsupported("reverse of symbolic length")
        self.v = SymBytes.of([Byte(ii(self.v.at(k))) for k in reversed(range(self.v.n))])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(bytearray, name):
            raise AttributeError(f"'bytearray' object has no attribute '{name}'")
        if name in ("ljust", "rjust", "removeprefix", "removesuffix", "strip", "lstrip", "rstrip"):
            return lambda *a: SymByteArray(rope_of(getattr(self.v, name)(*a)))
        if name in ("count", "index"):
            return lambda *a: getattr(self.v, name)(*a)
        raise Unsupported(f"bytearray.{name} on symbolic bytearray")


class SymMemView:
    """memoryview of bytes or of a bytearray (format "B", contiguous)"""

    __slots__ = ("obj", "lo", "n", "open", "__weakref__")

    def __init__(self, obj, lo=0, n=None):
        self.obj, self.lo, self.open = obj, lo, True
        self.n = obj.n if n is None else n
        if type(obj) is SymByteArray:
            # it lives at least as long as CPython's does: what refers to that refers to this
            obj.views.append(weakref.ref(self))

    @property
    def v(self):
        if not self.open:
            raise ValueError("operation forbidden on released memoryview object")
        r = self.obj.v if type(self.obj) is SymByteArray else self.obj
        return r.slice_terms(self.lo, self.n)

    def length_term(self):
        return self.n

    def at(self, i):
        return self.v.at(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, n, step = norm_slice(i, self.n)
            if step != 1:
                raise Unsupported("extended slice of a memoryview")
            if not self.open:
                self.v
            return SymMemView(self.obj, iadd(self.lo, lo), n)
        return self.v[i]

    def splice(self, lo, n, r):
        if type(self.obj) is not SymByteArray:
            raise TypeError("cannot modify read-only memory")
        self.obj.splice(iadd(self.lo, lo), n, r)

    def __setitem__(self, i, val):
        if type(self.obj) is not SymByteArray:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            r = rope_of(val)
            if r is None:
                raise TypeError("a bytes-like object is required")
            lo, n, step = norm_slice(i, self.n)
            if step != 1:
                raise Unsupported("extended slice assignment")
            d = isub(n, r.n)
            if not (d == 0 if isinstance(d, int) else ctx().branch(d == 0)):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.splice(lo, n, r)
            return
        k = norm_index(i, self.n)
        self.splice(k, 1, SymBytes.of([Byte(int_to_le(val, 1, False, ValueError)[0])]))

    def __eq__(self, o):
        r = rope_of(o)
        return NotImplemented if r is None else mkbool(rope_eq_formula(self.v, r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = None

    def __bool__(self):
        return bool(self.v)

    def __iter__(self):
        return iter(self.v)

    def __contains__(self, x):
        return x in self.v

    def tobytes(self, order=None):
        return self.v

    def toreadonly(self):
        return SymMemView(self.v)

    def cast(self, fmt, *shape):
        if fmt not in ("B",) or shape:
            raise Unsupported("memoryview.cast")
        return SymMemView(self.obj, self.lo, self.n)

    def release(self):
        # views that were taken of it count themselves
        self.open = False

    @property
    def nbytes(self):
        return mkint(self.n)

    @property
    def readonly(self):
        return type(self.obj) is not SymByteArray

    itemsize, format, ndim, contiguous = 1, "B", 1, True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'memoryview' object")

    def __repr__(self):
        return SYMTXT + "<SymMemView>"

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(memoryview, name):
            raise AttributeError(f"'memoryview' object has no attribute '{name}'")
        raise Unsupported(f"memoryview.{name}")


def bytes_from_iter(it):
    out = []
    for x in it:
        out.append(Byte(int_to_le(x, 1, False, ValueError)[0]))
    return SymBytes.of(out)


class SymPieces:
    """a list of byte strings: any number `k` of pieces whose concatenation is `head` (empty if
    there are none), then the pieces in `tail`"""

    def __init__(self, head, k):
        self.head, self.k, self.tail = head, k, []
        ctx().add(z3.And(ii(k) >= 0, z3.Implies(ii(k) == 0, ii(head.n) == 0)))

    def count(self):
        return sim(ii(self.k) + len(self.tail))

    def whole(self):
        out = self.head
        for x in self.tail:
            out = SymBytes.of(out.segs + rope_of(x).segs)
        return out

    @staticmethod
    def _piece(x):
        if type(x) is SymByteArray or isinstance(x, bytearray):
            raise Unsupported("a mutable piece of bytes in a list")
        if rope_of(x) is None:
            raise Unsupported("a list of bytes and other things")
        return x

    def append(self, x):
        self.tail.append(self._piece(x))

    def extend(self, xs):
        if type(xs) is SymPieces:
            raise Unsupported("extending a list by an unknown list")
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def clear(self):
        self.head, self.k, self.tail = SymBytes([]), 0, []

    def copy(self):
        out = SymPieces(self.head, self.k)
        out.tail = list(self.tail)
        return out

    __copy__ = copy

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        raise Unsupported("an item of an unknown list")

    def __setitem__(self, i, xs):
        if not (isinstance(i, slice) and i == slice(None)):
            raise Unsupported("an item of an unknown list")
        xs = xs if type(xs) is SymPieces else list(xs)
        self.clear()
        if type(xs) is SymPieces:
            self.head, self.k, self.tail = xs.head, xs.k, list(xs.tail)
        else:
            self.extend(xs)

    def __delitem__(self, i):
        self[i] = []

    def _len(self):
        return mkint(self.count())

    def __bool__(self):
        if self.tail:
            return True
        k = sim(self.k)
        return k > 0 if isinstance(k, int) else ctx().branch(k > 0)

    def __iter__(self):
        if self:
            raise Unsupported("turns over an unknown list of pieces")
        return iter(())

    def __eq__(self, o):
        if isinstance(o, list) and not o:
            return not self
        raise Unsupported("comparison of an unknown list")

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(list, name):
            raise AttributeError(name)
        raise Unsupported(f"list.{name} of an unknown list")


def pieces_of(o):
    """the bytes a list of pieces stands for, None when it is no such list"""
    if type(o) is SymPieces:
        return o.whole()
    if type(o) is list:
        out = SymBytes([])
        for x in o:
            r = rope_of(x)
            if r is None or type(x) is SymByteArray or isinstance(x, bytearray):
                return None
            out = SymBytes.of(out.segs + r.segs)
        return out
    return None


def rope_of(o):
    t = type(o)
    if t is SymBytes:
        return o
    if t is SymByteArray or t is SymMemView:
        return o.v
    if isinstance(o, (bytes, bytearray, memoryview)):
        return SymBytes.lit(bytes(o))
    return None


def repeat(b, k):
    r = rope_of(b)
    u = unint(k)
    if u is None:
        raise Unsupported("repeat count")
    u = sim(u)
    mut = type(b) is SymByteArray or isinstance(b, bytearray)
    if isinstance(u, int):
        res = SymBytes.of(r.segs * max(u, 0))
    else:
        if not ctx().branch(u >= 0):
            res = SymBytes([])
        elif isinstance(r.n, int) and r.n == 1 and z3.is_int_value(z3.simplify(r.at(0))):
            res = SymBytes.of([Fill(z3.simplify(r.at(0)).as_long(), u)])
        elif isinstance(r.n, int) and r.n == 0:
            res = SymBytes([])
        else:
            b0 = {z3.simplify(r.at(j)).as_long() for j in range(r.n)} if (
                isinstance(r.n, int) and all(isinstance(s, Lit) for s in r.segs)) else set()
            if len(b0) == 1:
                res = SymBytes.of([Fill(b0.pop(), sim(u * r.n))])
            else:
                res = SymBytes.of(r.segs * concretize_int(u))
    return SymByteArray(res) if mut else res


def norm_index(i, n):
    u = unint(i)
    if u is None:
        raise TypeError("indices must be integers")
    c = ctx()
    if isinstance(u, int) and isinstance(n, int):
        if not -n <= u < n:
            raise IndexError("index out of range")
        return u + n if u < 0 else u
    if not c.branch(z3.And(ii(u) < ii(n), ii(u) >= -ii(n))):
        raise IndexError("index out of range")
    if not isinstance(u, int):
        neg = c.branch(u < 0)
    else:
        neg = u < 0
    return iadd(u, n) if neg else u


def norm_slice(s, n):
    """(lo, length, step) with python clamping, forking where needed"""
    c = ctx()
    step = s.step
    if step is not None and not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == -1 and s.start is None and s.stop is None:
        return 0, n, -1
    if step not in (None, 1):
        raise Unsupported("slice step")

    def bound(x, default):
        if x is None:
            return default
        u = unint(x)
        if u is None:
            raise TypeError("slice indices must be integers")
        u = sim(u)
        if isinstance(u, int) and u == 0:
            return 0
        if isinstance(u, int) and isinstance(n, int):
            return min(u, n) if u >= 0 else max(0, u + n)
        neg = u < 0 if isinstance(u, int) else c.branch(u < 0)
        if neg:
            u = iadd(u, n)
            if not c.branch(ii(u) >= 0):
                return 0
            return u
        if c.branch(ii(u) <= ii(n)):
            return u
        return n

    lo = bound(s.start, 0)
    hi = bound(s.stop, n)
    d = isub(hi, lo)
    if isinstance(d, int):
        return lo, max(d, 0), 1
    if not c.branch(d >= 0):
        return lo, 0, 1
    return lo, d, 1


def len_pos(b):
    n = rope_of(b).n
    return n > 0 if isinstance(n, int) else ctx().branch(n > 0)


def find_in(r, sub, start, end):
    """bytes.find of a non-empty constant pattern"""
    p = rope_of(sub)
    if end is not None or not isinstance(p.n, int) or p.n == 0:
        raise Unsupported("find")
    c = ctx()
    s = unint(start)
    if not c.implied(ii(s) >= 0):
        raise Unsupported("find from a negative start")
    k = z3.Int(c.fresh("find"))

    def match(at):
        return z3.And(*[r.at(iadd(at, j)) == p.at(j) for j in range(p.n)])

    j = z3.Int(c.fresh("q"))
    body_nomatch = z3.Not(z3.And(*[_rawat(r, iadd(j, x)) == p.at(x) for x in range(p.n)]))
    opt = [
        z3.And(k >= ii(s), k + p.n <= ii(r.n), match(k),
               z3.ForAll([j], z3.Implies(z3.And(j >= ii(s), j < k), body_nomatch))),
        z3.And(k == -1, z3.ForAll([j], z3.Implies(
            z3.And(j >= ii(s), j + p.n <= ii(r.n)), body_nomatch))),
    ]
    w = c.choose(opt)
    ev = getattr(c, "on_find", None)
    if ev:
        ev(r, p, s, k if w == 0 else None)
    return SymInt(k) if w == 0 else -1


def _rawat(r, i):
    return r.at(i)


# ----------------------------------------------------------------- rope equality
def _bytes_list(r):
    return [r.at(k) for k in range(r.n)]


def syntactic_eq(a, b):
    if a is b:
        return True
    x, y = list(a.segs), list(b.segs)
    if len(x) != len(y):
        return False
    for s, t in zip(x, y):
        if s is t:
            continue
        if type(s) is not type(t):
            return False
        d = isub(s.n, t.n)
        if not (isinstance(d, int) and d == 0):
            return False
        if isinstance(s, Lit):
            if s.b != t.b:
                return False
        elif isinstance(s, Byte):
            if s.t.get_id() != t.t.get_id() and not z3.is_true(z3.simplify(s.t == t.t)):
                return False
        elif isinstance(s, Arr):
            e = isub(s.s, t.s)
            if s.a.get_id() != t.a.get_id() or not (isinstance(e, int) and e == 0):
                return False
        elif isinstance(s, Fill):
            if s.byte != t.byte:
                return False
        else:
            e = isub(s.s, t.s)
            if not (isinstance(e, int) and e == 0 and syntactic_eq(s.r, t.r)):
                return False
    return True


def rope_eq_formula(a, b):
    """formula for a == b usable in either polarity"""
    if syntactic_eq(a, b):
        return True
    na, nb = a.n, b.n
    if isinstance(na, int) and isinstance(nb, int) and na != nb:
        return False
    n = na if isinstance(na, int) else (nb if isinstance(nb, int) else None)
    leq = z3.simplify(ii(na) == ii(nb))
    if n is not None and n <= 4096:
        fs = [] if z3.is_true(leq) else [leq]
        for k in range(n):
            e = z3.simplify(a.at(k) == b.at(k))
            if z3.is_false(e):
                return False if z3.is_true(leq) else z3.BoolVal(False)
            if not z3.is_true(e):
                fs.append(e)
        return z3.And(*fs) if fs else True
    c = ctx()
    i = z3.Int(c.fresh("i"))
    return z3.And(leq, z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < ii(na)), a.at(i) == b.at(i))))


def rope_eq_goal(a, b):
    """formula for a == b, for use as a proof goal only (index skolemised)"""
    a, b = rope_of(a), rope_of(b)
    if syntactic_eq(a, b):
        return True
    if isinstance(a.n, int) and isinstance(b.n, int):
        f = rope_eq_formula(a, b)
        return f
    # strip a syntactically common prefix
    c = ctx()
    i = z3.Int(c.fresh("sk"))
    return z3.And(ii(a.n) == ii(b.n), z3.Implies(
        z3.And(i >= 0, i < ii(a.n)), a.at(i) == b.at(i)))


# ----------------------------------------------------------------- text
_DEC = {}


def tobool_z(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def canon_codec(name):
    import codecs

    return codecs.lookup(name).name


SINGLE_BYTE = {"cp1252", "iso8859-1", "ascii", "latin-1"}


def decodable(codec, r):
    """formula: the bytes decode strictly"""
    if isinstance(r.n, int) and r.n == 0:
        return True
    if all(isinstance(s, Lit) for s in r.segs):
        try:
            b"".join(s.b for s in r.segs).decode(codec)
            return True
        except UnicodeDecodeError:
            return False
    if codec == "iso8859-1":
        return True
    f = _DEC.setdefault(codec, z3.Function(
        "Decodable_" + codec.replace("-", "_"), z3.ArraySort(z3.IntSort(), z3.IntSort()),
        z3.IntSort(), z3.IntSort(), z3.BoolSort()))
    fs = []
    for s in r.segs:
        if isinstance(s, Arr):
            fs.append(z3.Or(ii(s.n) == 0, f(s.a, ii(s.s), ii(s.n))))
        elif isinstance(s, Lit) and all(x < 128 for x in s.b):
            continue
        elif isinstance(s, Fill) and s.byte < 128:
            continue
        elif codec == "cp1252" and isinstance(s, Lit):
            if any(x in (0x81, 0x8D, 0x8F, 0x90, 0x9D) for x in s.b):
                return False
        elif codec == "cp1252" and isinstance(s, Byte):
            fs.append(z3.And(*[s.t != x for x in (0x81, 0x8D, 0x8F, 0x90, 0x9D)]))
        else:
            raise Unsupported("decode of a compound byte string")
    return z3.And(*fs) if fs else True


def decode_rope(r, encoding, errors):
    codec = canon_codec(encoding)
    if errors not in ("strict",):
        if codec == "iso8859-1":
            return SymStr(codec, r)
        d = decodable(codec, r)
        if d is True or ctx().branch(d):
            return SymStr(codec, r)
        return SymStr("?lossy", r)
    d = decodable(codec, r)
    if d is False or (d is not True and not ctx().branch(d)):
        raise UnicodeDecodeError(encoding, b"?", 0, 1, "undecodable byte")
    return SymStr(codec, r)


class SymStr:
    """symbolic text, represented by its encoding under one codec"""

    __slots__ = ("codec", "rope")

    def __init__(self, codec, rope):
        self.codec, self.rope = codec, rope

    def length_term(self):
        return self.rope.n

    def encode(self, encoding="utf-8", errors="strict"):
        codec = canon_codec(encoding)
        if codec == self.codec:
            return self.rope
        if isinstance(self.rope.n, int) and self.rope.n == 0:
            return SymBytes([])
        # another codec: unknown bytes (over-approximation), or characters it does not have
        c = ctx()
        if errors == "strict" and not codec.startswith(("utf", "utf_")) \
                and c.branch(z3.Bool(c.fresh("unencodable"))):
            raise UnicodeEncodeError(codec, "?", 0, 1, "character maps to <undefined>")
        a = z3.Array(c.fresh("reenc"), z3.IntSort(), z3.IntSort())
        n = z3.Int(c.fresh("reenc_n"))
        c.add(n >= 0)
        if self.codec in SINGLE_BYTE and codec in SINGLE_BYTE:
            c.add(n == ii(self.rope.n))
        return SymBytes.of([Arr(a, 0, n)])

    def _enc_other(self, o):
        if isinstance(o, str):
            try:
                return SymBytes.lit(o.encode(self.codec))
            except (UnicodeEncodeError, LookupError) as e:
                raise Unsupported("mixed text") from e
        if type(o) is SymStr:
            if o.codec != self.codec:
                raise Unsupported("text of two codecs")
            return o.rope
        return None

    def __eq__(self, o):
        r = self._enc_other(o)
        if r is None:
            return NotImplemented
        return mkbool(rope_eq_formula(self.rope, r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __add__(self, o):
        r = self._enc_other(o)
        if r is None:
            return NotImplemented
        return SymStr(self.codec, self.rope + r)

    def __radd__(self, o):
        r = self._enc_other(o)
        if r is None:
            return NotImplemented
        return SymStr(self.codec, r + self.rope)

    def __getitem__(self, i):
        if self.codec in SINGLE_BYTE:
            return SymStr(self.codec, rope_of(self.rope[i] if isinstance(i, slice)
                                              else self.rope[i : i + 1]))
        raise Unsupported("indexing multi-byte text")

    def __bool__(self):
        return bool(self.rope)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __repr__(self):
        return SYMTXT + "<SymStr>"

    __str__ = __repr__

    def __format__(self, s):
        return SYMTXT + "<SymStr>"

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        raise Unsupported("iteration over symbolic text")

    def startswith(self, p):
        return self.rope.startswith(self._enc_other(p))

    def endswith(self, p):
        return self.rope.endswith(self._enc_other(p))

    def _len(self):
        if self.codec in SINGLE_BYTE:
            return mkint(self.rope.n)
        c = ctx()
        n = z3.Int(c.fresh("nchars"))
        c.add(z3.And(n >= 0, n <= ii(self.rope.n), ii(self.rope.n) <= 4 * n))
        return SymInt(n)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        raise Unsupported(f"str.{name} on symbolic text")


# ----------------------------------------------------------------- floats
class SymF64:
    """an IEEE double known only by its 8 bytes"""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = list(segs)

    def rope(self):
        return SymBytes.of(self.segs)

    def __eq__(self, o):
        if type(o) is SymF64:
            return mkbool(rope_eq_formula(self.rope(), o.rope()))
        if isinstance(o, (int, float)):
            return mkbool(rope_eq_formula(self.rope(), SymBytes.lit(_rstruct.pack("<d", o))))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def _no(self, *a):
        raise Unsupported("arithmetic on a symbolic double")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = __round__ = _no

    def __repr__(self):
        return SYMTXT + "<SymF64>"

    def __format__(self, s):
        return SYMTXT + "<SymF64>"

    def __deepcopy__(self, memo):
        return self


class SymRatio:
    """the double computed from one symbolic integer and constants.

    num/den is the same computation over the rationals and `fn` the computation itself.  Where the
    double is turned into an integer or compared, the two are reconciled (`exact`): either every
    intermediate result is a dyadic rational of at most 53 bits, hence exact, or the integer's
    range is small enough to run the double computation on all of it; where they differ, the
    double's result counts."""

    __slots__ = ("num", "den", "base", "lin", "fn", "key", "steps")

    def __init__(self, num, den, base, lin, fn, key, steps):
        self.num, self.den, self.base, self.fn, self.key = num, den, base, fn, key
        self.lin = lin      # num = lin[0] * base + lin[1]
        self.steps = (*steps, (num, den)) if steps is not None else None

    @staticmethod
    def of(x):
        t = ii(unint(x))
        return SymRatio(t, 1, t, (1, 0), float, "x", ())

    @staticmethod
    def _const(o):
        from fractions import Fraction

        if isinstance(o, bool) or not isinstance(o, (int, float)):
            return None
        return Fraction(o)

    def _next(self, k, add, den, op, o):
        """num*k + add over den"""
        if self.base is None:
            raise Unsupported("arithmetic of computed doubles")
        f, py = self.fn, {"/": lambda a, b: a / b, "*": lambda a, b: a * b,
                          "+": lambda a, b: a + b, "-": lambda a, b: a - b}[op]
        lin = self.lin[0] * k, self.lin[1] * k + add
        num = z3.simplify(self.base * lin[0] + lin[1])
        return SymRatio(num, den, self.base, lin, lambda x: py(f(x), o),
                        f"({self.key}{op}{o!r})", self.steps)

    def __truediv__(self, o):
        f = self._const(o)
        if f is None:
            raise Unsupported("division of a symbolic ratio")
        if f == 0:
            raise ZeroDivisionError("float division by zero")
        s = 1 if f > 0 else -1
        return self._next(s * f.denominator, 0, self.den * abs(f.numerator), "/", o)

    def __mul__(self, o):
        f = self._const(o)
        if f is None:
            raise Unsupported("product of a symbolic ratio")
        return self._next(f.numerator, 0, self.den * f.denominator, "*", o)

    __rmul__ = __mul__

    def __add__(self, o):
        f = self._const(o)
        if f is None:
            u = unint(o)
            if u is None or self.steps is None:
                raise Unsupported("sum of a symbolic ratio")
            r = SymRatio(z3.simplify(self.num + ii(u) * self.den), self.den, None, None, None, "",
                         (*self.steps, (ii(u), 1)))
            return r
        return self._next(f.denominator, f.numerator * self.den, self.den * f.denominator, "+", o)

    __radd__ = __add__

    def __sub__(self, o):
        f = self._const(o)
        if f is None:
            raise Unsupported("difference of a symbolic ratio")
        return self._next(f.denominator, -f.numerator * self.den, self.den * f.denominator, "-", o)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def _dyadic(self):
        """every step is a multiple of 1/2**k below 2**53 in units of it: doubles are exact"""
        if self.steps is None:
            return False
        c = ctx()
        for num, den in self.steps:
            if den & (den - 1) or den > 1 << 60:
                return False
            if not c.implied(z3.And(num < 1 << 53, num > -(1 << 53))):
                return False
        return True

    def _reconcile(self, op, py, rational, term, fix):
        """`term` (the rational result) corrected to what the double gives"""
        if self._dyadic():
            return term
        if self.base is None:
            raise Unsupported("rounding of a computed double")
        memo = RATIO_MEMO
        c = ctx()
        rng = next((r for r in ((0, 999), (0, 65535), (0, 999999), (0, 1 << 20))
                    if c.implied(z3.And(self.base >= r[0], self.base <= r[1]))), None)
        if rng is None:
            raise Unsupported("rounding of a computed double of an unbounded integer")
        k = (self.key, op, rng)
        if k not in memo:
            a, b = self.lin
            diff = {}
            for x in range(rng[0], rng[1] + 1):
                want, got = rational(a * x + b, self.den), py(self.fn(x))
                if want != got:
                    diff.setdefault(got - want, []).append(x)
                    if sum(map(len, diff.values())) > 3000:
                        raise Unsupported("a computed double far from its rational value")
            memo[k] = diff
        return fix(term, memo[k])

    def _fix_int(self, term, diff):
        for d, xs in diff.items():
            term = term + z3.If(z3.Or(*[self.base == x for x in xs]), ii(d), ii(0))
        return term

    def _to_int(self, op, py, rational, term):
        return mkint(sim(self._reconcile(op, py, rational, term, self._fix_int)))

    def __round__(self, nd=None):
        if nd not in (None,):
            raise Unsupported("round to digits")
        q = self.num / ii(self.den)
        r2 = 2 * (self.num - q * self.den)
        t = z3.If(r2 < self.den, q, z3.If(r2 > self.den, q + 1, z3.If(q % 2 == 0, q, q + 1)))

        def rational(n, d):
            q, r = divmod(n, d)
            return q + (2 * r > d or (2 * r == d and q % 2 == 1))
        return self._to_int("round", round, rational, t)

    def __int__(self):
        raise Unsupported("native int() of a ratio")

    def trunc(self):
        import math
        q = self.num / ii(self.den)
        c = z3.And(self.num < 0, q * self.den != self.num)
        return self._to_int("trunc", math.trunc, lambda n, d: n // d if n >= 0 else -(-n // d),
                            z3.If(c, q + 1, q))

    def __floor__(self):
        import math
        return self._to_int("floor", math.floor, lambda n, d: n // d, self.num / ii(self.den))

    def __ceil__(self):
        import math
        return self._to_int("ceil", math.ceil, lambda n, d: -(-n // d),
                            -((-self.num) / ii(self.den)))

    __trunc__ = trunc

    def __floordiv__(self, o):
        raise Unsupported("float floor division")

    def _cmp(self, o, name, f):
        if type(o) is SymRatio:
            if not (self._dyadic() and o._dyadic()):
                raise Unsupported("comparison of computed doubles")
            return mkbool(z3.simplify(f(self.num * o.den, o.num * self.den)))
        c = self._const(o)
        if c is None:
            u = unint(o)
            if u is None:
                return NotImplemented
            if not self._dyadic():
                raise Unsupported("comparison of a computed double")
            return mkbool(z3.simplify(f(self.num, ii(u) * self.den)))
        term = f(self.num * c.denominator, ii(c.numerator) * self.den)

        def fix(t, diff):
            for xs in diff.values():
                t = z3.Xor(t, z3.Or(*[self.base == x for x in xs]))
            return t
        return mkbool(z3.simplify(self._reconcile(
            f"{name}{o!r}", lambda x: int(f(x, o)),
            lambda n, d: int(f(n * c.denominator, c.numerator * d)), term, fix)))

    def __lt__(self, o):
        return self._cmp(o, "<", lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, "==", lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, "!=", lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __repr__(self):
        return SYMTXT + "<SymRatio>"


RATIO_MEMO = {}


class SymFloat:
    """a finite double known only to lie in [lo, hi] (clock readings and sums of them);
    `r` is a z3 Real that names the value, so equal readings are recognisably equal"""

    __slots__ = ("lo", "hi", "r")

    def __init__(self, lo, hi, r=None):
        self.lo, self.hi = lo, hi
        self.r = r if r is not None else z3.Real(ctx().fresh("float"))
        if r is None:
            ctx().add(z3.And(self.r >= lo, self.r <= hi))

    @staticmethod
    def _iv(o):
        if type(o) is SymFloat:
            return o.lo, o.hi
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return o, o
        raise Unsupported("float arithmetic with a symbolic operand")

    @staticmethod
    def _mk(lo, hi):
        # widen for rounding
        w = 1e-9 * (abs(lo) + abs(hi) + 1)
        return SymFloat(lo - w, hi + w)

    def __sub__(self, o):
        lo, hi = self._iv(o)
        return self._mk(self.lo - hi, self.hi - lo)

    def __rsub__(self, o):
        lo, hi = self._iv(o)
        return self._mk(lo - self.hi, hi - self.lo)

    def __add__(self, o):
        lo, hi = self._iv(o)
        return self._mk(self.lo + lo, self.hi + hi)

    __radd__ = __add__

    def __mul__(self, o):
        lo, hi = self._iv(o)
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return self._mk(min(c), max(c))

    __rmul__ = __mul__

    def __truediv__(self, o):
        lo, hi = self._iv(o)
        if lo <= 0 <= hi:
            raise Unsupported("float division by an interval containing 0")
        c = [self.lo / lo, self.lo / hi, self.hi / lo, self.hi / hi]
        return self._mk(min(c), max(c))

    def _toint(self):
        import math

        c = ctx()
        t = z3.Int(c.fresh("rounded"))
        c.add(z3.And(t >= math.floor(self.lo), t <= math.ceil(self.hi)))
        return SymInt(t)

    def __round__(self, nd=None):
        if nd is not None:
            return SymFloat(self.lo - 1, self.hi + 1)
        return self._toint()

    trunc = __trunc__ = __floor__ = __ceil__ = _toint

    def _cmp(self, o, f):
        if type(o) is SymFloat:
            return mkbool(f(self.r, o.r))
        if isinstance(o, (int, float)):
            return mkbool(z3.simplify(f(self.r, z3.RealVal(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return ctx().branch(self.r != 0)

    def __neg__(self):
        return SymFloat(-self.hi, -self.lo)

    def __abs__(self):
        return -self if self < 0 else self

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __repr__(self):
        return SYMTXT + "<SymFloat>"

    def __format__(self, s):
        return SYMTXT + "<SymFloat>"

    def __deepcopy__(self, memo):
        return self


SYMTYPES = {SymInt, SymBool, SymBytes, SymByteArray, SymMemView, SymStr, SymF64, SymRatio, SymFloat}


# ----------------------------------------------------------------- fresh inputs
def fresh_int(name, lo=None, hi=None, cls=None, inp=True):
    c = ctx()
    t = z3.Int(c.fresh(name))
    if lo is not None:
        c.add(t >= lo)
    if hi is not None:
        c.add(t <= hi)
    v = SymInt(t, cls)
    if inp:
        c.inputs[name] = v
    return v


def fresh_bytes(name, n=None, inp=True):
    c = ctx()
    a = z3.Array(c.fresh(name), z3.IntSort(), z3.IntSort())
    if n is None:
        n = z3.Int(c.fresh(name + "_len"))
        c.add(n >= 0)
    v = SymBytes.of([Arr(a, 0, n)])
    if inp:
        c.inputs[name] = v
    return v


def fresh_text(name, codec, inp=True):
    r = fresh_bytes(name, inp=False)
    codec = canon_codec(codec)
    d = decodable(codec, r)
    if d is not True:
        ctx().add(d)
    v = SymStr(codec, r)
    if inp:
        ctx().inputs[name] = v
    return v
