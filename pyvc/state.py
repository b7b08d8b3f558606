"""Hidden state: what a loop cut or a whole exploration must not change behind the contracts.

A cut replaces all turns of a loop by one arbitrary turn.  That is sound for the state the rule
havocs (locals assigned in the loop, attributes of the object under contract); every other
mutable object in reach must be the same after the turn as before it.  `Snapshot` records those
objects and `check` raises Unsupported when one has changed.
"""
import collections
import datetime
import dis
import enum
import sys
import types

from . import core
from . import values as V
from .core import Poison, Unsupported

PLAIN = (int, float, complex, str, bytes, type(None), type, types.ModuleType, range, slice,
         types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
         types.GetSetDescriptorType, types.MemberDescriptorType, types.CodeType, enum.Enum,
         datetime.tzinfo, datetime.date, datetime.time, datetime.timedelta, types.GenericAlias,
         types.MappingProxyType, property, staticmethod, classmethod, BaseException, Poison,
         types.TracebackType, types.FrameType, type(...), type(NotImplemented))
SYM = {V.SymBool, V.SymInt, V.SymBytes, V.SymStr, V.SymFloat, V.SymF64, V.SymRatio}
CONTAINERS = (list, tuple, dict, set, frozenset, collections.deque)


def _library(o):
    return type(o).__module__.split(".")[0] in ("vblf", "spec") and hasattr(o, "__dict__")


class Snapshot:
    def __init__(self, roots, skip=(), strict=True):
        """roots: (name, object) pairs; skip: ids of objects the loop rule manages itself;
        strict: an object whose state cannot be seen (an iterator, say) is refused"""
        self.seen = {}
        self.strict = strict
        self.skip = set(skip)
        for n, o in roots:
            self.add(n, o)

    def add(self, name, o, depth=0):
        if isinstance(o, PLAIN) or type(o) in SYM or id(o) in self.seen or id(o) in self.skip:
            return
        if depth > 12:
            return
        t = type(o)
        if t is types.FunctionType:
            self.seen[id(o)] = (name, o, self.shallow(o))
            for x in (o.__defaults__ or ()):
                self.add(f"{name} default", x, depth + 1)
            for x in (o.__kwdefaults__ or {}).values():
                self.add(f"{name} default", x, depth + 1)
            for k, x in zip(o.__code__.co_freevars, o.__closure__ or ()):
                try:
                    self.add(k, x.cell_contents, depth + 1)
                except ValueError:
                    pass
            return
        if t is types.MethodType:
            self.add(name, o.__self__, depth + 1)
            self.add(name, o.__func__, depth + 1)
            return
        if t is V.SymMemView:
            return self.add(name, o.obj, depth + 1)
        now = self.shallow(o)
        if now is None:
            if t is types.GeneratorType and o.gi_running:
                return
            if hasattr(t, "__next__") and self.strict and not hasattr(o, "vc_contract"):
                raise Unsupported(f"{name} is an iterator whose state is hidden in a loop")
            return
        self.seen[id(o)] = (name, o, now)
        if isinstance(o, dict):
            for k, x in o.items():
                self.add(f"{name}[{k!r:.20}]", x, depth + 1)
        elif isinstance(o, CONTAINERS):
            for x in o:
                self.add(f"{name}[]", x, depth + 1)
        elif _library(o):
            for k, x in vars(o).items():
                self.add(f"{name}.{k}", x, depth + 1)

    @staticmethod
    def shallow(o):
        from . import shims
        t = type(o)
        if t is types.FunctionType:
            return ("f", dict(o.__dict__))
        if isinstance(o, dict):
            return ("d", list(o.items()))
        if isinstance(o, (set, frozenset)):
            return ("s", set(o))
        if isinstance(o, CONTAINERS):
            return ("l", list(o))
        if isinstance(o, bytearray):
            return ("b", bytes(o))
        if t is V.SymByteArray:
            return ("r", o.v)
        if t is V.SymPieces:
            return ("q", o.head, o.k, list(o.tail))
        if t is shims.SymStream:
            return ("m", o.content, o.pos, o.is_closed)
        if _library(o) and not isinstance(o, type):
            return ("o", dict(vars(o)))
        return None

    def check(self, where, same=None):
        for name, o, was in self.seen.values():
            if id(o) in self.skip:
                continue
            now = self.shallow(o)
            if not equal(was, now, same):
                raise Unsupported(f"{name} is changed in place {where}")


def equal(a, b, same=None):
    if a is b:
        return True
    if type(a) is not type(b):
        return bool(same and same(a, b))
    if isinstance(a, tuple) and len(a) > 1 and isinstance(a[0], str):
        if len(a) != len(b):
            return False
        return all(equal(x, y, same) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, same) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(x, b[k], same) for k, x in a.items())
    if isinstance(a, set):
        return len(a) == len(b) and {id(x) for x in a} == {id(x) for x in b} or (
            not any(V.is_sym(x) for x in (*a, *b)) and a == b)
    if V.is_sym(a) or V.is_sym(b) or not isinstance(a, (int, float, str, bytes, range)):
        return bool(same and same(a, b))
    return a == b


def enclosing_loops(frame):
    """for-loops whose iteration drives the generator that is being cut, outermost last"""
    from . import shims
    out = []
    f = frame
    while f is not None:
        g = f.f_back
        if f.f_code.co_flags & 0x20 and g is not None:      # a generator was resumed by g
            if g.f_globals.get("__name__") == "pyvc.shims":
                fn = g.f_code.co_name
                if fn == "more":
                    loop = g.f_locals["self"]
                    if type(loop.iterator) is not types.GeneratorType:
                        raise Unsupported(
                            f"a generator with an unbounded loop is consumed through "
                            f"{type(loop.iterator).__name__}")
                    out.append(loop)
                elif fn == "vc_call":
                    c = g.f_locals.get("f")
                    if c is not next:
                        raise Unsupported(f"a generator with an unbounded loop is consumed by "
                                          f"{getattr(c, '__name__', c)}")
            elif g.f_globals.get("__vc_own__"):
                op = dis.opname[g.f_code.co_code[g.f_lasti]]
                if op != "SEND":
                    raise Unsupported("a generator with an unbounded loop is consumed by an "
                                      f"expression ({op})")
        f = g
    return out


class Outer:
    """the loops around a cut: the locals of their bodies must not carry state from turn to turn"""

    def __init__(self, frame):
        self.loops = enclosing_loops(frame)
        self.was = []
        for lp in self.loops:
            loc = lp.frame.f_locals
            self.was.append({k: loc[k] for k in lp.names if k in loc})

    def locals(self):
        for lp in self.loops:
            for k, v in lp.frame.f_locals.items():
                if "__vc_" not in k:
                    yield k, v

    def check(self, same):
        for lp, was in zip(self.loops, self.was):
            loc = lp.frame.f_locals
            for k, v in was.items():
                if k in loc and loc[k] is not v and not same(v, loc[k]):
                    raise Unsupported(f"{k} carries state from turn to turn at {lp.where}")
