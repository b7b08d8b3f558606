"""Contract of the writer: a representation invariant with ghost history, proved per operation.

Ghosts describe the history of an open writer: k accepted records, S the sum of their sizes,
the file is 144 bytes of statistics block followed by L-144 bytes of containers, P bytes of
payload are in those containers, B is the pending part of the uncompressed stream, t zero bytes
end the stream since the last accepted record, tau is the clock reading of the last accepted
write (meaningful when k > 0).

Every operation (write of a good, a misdeclared and an unencodable record; close; leaving the
with-block) is run from an arbitrary state in the invariant.  It must append containers (each
checked field by field) whose payloads Q satisfy

        Q ++ B_after  ==  B_before ++ zeros ++ (encoding ++ zeros if the record is accepted)

Which attribute holds which ghost is not fixed: for each integer, float and date of the writer's
state every candidate relation to the ghosts is tried and the ones that are not inductive are
dropped (Houdini); what is left is the invariant the proofs use.
"""
import enum
import sys
import types

import z3

from pyvc import core, shims, state
from pyvc import values as V
from pyvc.core import PathEnd, Poison, Unsupported
from pyvc.values import (Arr, Fill, Lit, SymBool, SymByteArray, SymBytes, SymFloat, SymInt, View,
                         iadd, ii, isub, rope_of, sim, unint)
from spec import codec as C
from spec import layout as L
from spec import small as S
from spec.reader import havoc_value, unchanged

MAXBUF = 1 << 30
FACTS = ("t", "pad", "P8", "PB8", "small")
BIG = 1 << 50


class Plan:
    """the candidate relations still standing"""

    def __init__(self):
        self.changed = False
        self.stale = False
        self.log = []
        self.shape = None          # template of the writer object
        self.cands = {}            # location -> candidate names
        self.facts = {"pos", *FACTS}
        self.loop_mods = {}        # loop site -> locations the loop changes
        self.loop_cands = {}
        self.loop_facts = {}
        self.loop_locals = {}
        self.loop_lcands = {}
        self.loop_flags = {}       # (loop site, local) -> the way the flag goes
        self.carriers = {}         # loop site -> places the pending bytes may be kept at
        self.after = set()         # loop sites that run on when everything is written
        self.native = set()        # loop sites executed turn by turn
        self.buffer = None         # location of the pending bytes
        self.buffer_choices = []

    def note(self, what):
        self.changed = True
        self.log.append(what)

    def forget(self):
        """a loop is cut differently from now on: what was weakened may hold again"""
        self.stale = True

    def restart(self):
        self.stale = False
        self.shape = None
        self.cands, self.facts = {}, {"pos", *FACTS}
        for d in (self.loop_mods, self.loop_cands, self.loop_facts, self.loop_locals,
                  self.loop_lcands, self.loop_flags):
            d.clear()


# ----------------------------------------------------------------- the writer's state
def kind_of(v):
    if type(v) is shims.SymStream:
        return "file" if v.kind == "file" else "mem"
    if rope_of(v) is not None:
        return "rope"
    if V.pieces_of(v) is not None:
        return "pieces"
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if unint(v) is not None:
        return "int"
    if type(v) is SymFloat or isinstance(v, float):
        return "float"
    if type(v) is C.klass("SystemTime"):
        return "time"
    if v is None or isinstance(v, (str, type, types.FunctionType, types.ModuleType, Method)):
        return "const"
    if isinstance(v, tuple) and all(kind_of(x) == "const" or (
            kind_of(x) in ("int", "float") and not V.is_sym(x)) for x in v):
        return "const"
    if type(v).__module__.startswith("vblf") and hasattr(v, "__dict__"):
        return "obj"
    return "other"


class Method:
    """a method of the writer kept in an attribute"""

    def __init__(self, func):
        self.func = func

    def __eq__(self, other):
        return type(other) is Method and self.func is other.func

    def __hash__(self):
        return hash(self.func)


def walk(o, path=(), root=None):
    root = o if root is None else root
    for k, v in vars(o).items():
        if type(v) is types.MethodType and v.__self__ is root:
            v = Method(v.__func__)
        kd = kind_of(v)
        yield (*path, k), kd, v
        if kd == "obj":
            yield from walk(v, (*path, k), root)
        if kd == "mem":
            yield (*path, k, "pos"), "int", V.mkint(v.pos)
        if kd == "pieces":
            yield (*path, k, "k"), "count", V.mkint(v.count()) \
                if type(v) is V.SymPieces else len(v)


def get(o, path):
    for k in path:
        o = getattr(o, k)
    return o


def put(o, path, v):
    if type(v) is Method:
        v = types.MethodType(v.func, o)
    for k in path[:-1]:
        o = getattr(o, k)
    if type(o) in (shims.SymStream, V.SymPieces):
        v = unint(v)
    elif type(o) is list:
        return      # put_source replaces the list
    object.__setattr__(o, path[-1], v)


def content_of(v):
    """the bytes held by a byte string, a bytearray or a BytesIO"""
    if type(v) is shims.SymStream:
        if v.is_closed:
            raise Unsupported("the buffer of pending bytes is closed")
        return v.content
    r = rope_of(v)
    return V.pieces_of(v) if r is None else r


class Ghost:
    FIELDS = ("level", "bufsize", "k", "S", "L", "P", "t", "pad", "tau", "B")

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Ghost(**d)


INT_CANDS = {
    "k": lambda g: ii(g.k), "S": lambda g: ii(g.S), "144+S": lambda g: 144 + ii(g.S),
    "L": lambda g: ii(g.L), "L-144": lambda g: ii(g.L) - 144,
    "b": lambda g: ii(g.B.n), "P": lambda g: ii(g.P),
    "P+b": lambda g: ii(g.P) + ii(g.B.n), "bufsize": lambda g: ii(g.bufsize),
    "level": lambda g: ii(g.level),
}
AFTER = 3  # turns a loop may take after the last pending byte is written
LOOP_BOOLS = {
    "b>0": lambda g, f: (ii(g.B.n) > 0) == f,
    "b>=bufsize": lambda g, f: (ii(g.B.n) >= ii(g.bufsize)) == f,
    "P>0": lambda g, f: (ii(g.P) > 0) == f,
    "b>0 if not": lambda g, f: z3.Or(ii(g.B.n) == 0, f),
    "b>0 only if": lambda g, f: z3.Or(ii(g.B.n) == 0, z3.Not(f)),
}
BOOL_CANDS = {
    "k>0": lambda g: ii(g.k) > 0, "b>0": lambda g: ii(g.B.n) > 0, "level>0": lambda g: ii(g.level) > 0,
    "P>0": lambda g: ii(g.P) > 0,
}


def systime_of(tau):
    return shims.from_timestamp(tau, shims._rdt.timezone.utc)


CFG = z3.Ints("cfg.level cfg.buffer_size")


def config_term(t, level, bufsize):
    """t over the constructor's parameters alone, or None"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and not x.eq(level) and not x.eq(bufsize):
            return None
        if z3.is_quantifier(x) or z3.is_app(x) and x.num_args() and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        todo += x.children()
    return z3.substitute(t, (level, CFG[0]), (bufsize, CFG[1]))


class Config:
    """what a constructor makes of its parameters: the value by cases, never changed again"""

    def __init__(self):
        self.cases = []

    @staticmethod
    def at(t, g):
        return z3.substitute(t, (CFG[0], ii(g.level)), (CFG[1], ii(g.bufsize)))

    def case(self, kd, v, val):
        if kd == "const":
            return val is v or (type(val) is type(v) and val == v)
        return unint(v) is not None and ii(unint(v)) == val

    def holds(self, c, kd, v, g):
        out = []
        for cond, val in self.cases:
            x = self.case(kd, v, val if kd == "const" else self.at(val, g))
            if x is not False:
                out.append(z3.And(self.at(cond, g), x))
        return bool(out) and c.implied(z3.Or(*out))

    def learn(self, c, kd, v, g):
        """one more case, at the end of a constructor's path"""
        lv, bs = ii(g.level), ii(g.bufsize)
        val = v
        if kd != "const":
            if unint(v) is None:
                return False
            val = config_term(ii(unint(v)), lv, bs)
        if val is None:
            return False
        cond = [config_term(f, lv, bs) for f in c.solver.assertions()]
        self.cases.append((z3.And(*[f for f in cond if f is not None]), val))
        return len(self.cases) <= 16

    def value(self, c, kd, g):
        if kd == "const":
            i = c.choose([self.at(cond, g) for cond, _v in self.cases])
            return self.cases[i][1]
        v = V.fresh_int("setting", inp=False)
        c.add(z3.Or(*[z3.And(self.at(cond, g), v.t == self.at(val, g))
                      for cond, val in self.cases]))
        return SymBool(v.t != 0) if kd == "bool" else v


def holds(c, name, kd, v, g):
    """does candidate `name` hold of value v? True/False (decided by the solver)"""
    if isinstance(v, Poison):
        return False
    if name[0] == "config":
        if name[1].holds(c, kd, v, g):
            return True
        if c.session.learning and name[1].learn(c, kd, v, g):
            c.session.plan.note(f"a setting is {name[1].cases[-1]}")
            return True
        return False
    if name[0] == "const":
        w = name[1]
        if kd in ("const",):
            return v is w or (type(v) is type(w) and v == w)
        if kd == "float":
            return not V.is_sym(v) and v == w
        u = unint(v)
        if u is None:
            return False
        return c.implied(ii(u) == int(w))
    if kd == "int":
        u = unint(v)
        if u is None:
            return False
        return c.implied(ii(u) == INT_CANDS[name](g))
    if kd == "bool":
        u = unint(v)
        if u is None:
            return False
        return c.implied((ii(u) != 0) == BOOL_CANDS[name](g))
    if kd == "count":
        if name == "full":          # no pieces without bytes only
            return c.implied(z3.Implies(ii(unint(v)) > 0, ii(g.B.n) > 0))
    if kd == "float":
        if name == "clock":
            return type(v) is SymFloat and v.lo >= 0 and v.hi <= shims.CLOCK_MAX
        if name == "tau":
            if type(v) is not SymFloat:
                return False
            return c.implied(z3.Implies(ii(g.k) > 0, v.r == g.tau.r))
    if kd == "time":
        if type(v) is not C.klass("SystemTime"):
            return False
        if name == "fields":
            return all(c.implied(C.in_range("u2", getattr(v, n, None)))
                       for n, _o, _t in L.STRUCTS["SystemTime"][2])
        if name == "tau":
            if not c.implied(ii(g.k) > 0):
                return c.implied(ii(g.k) == 0)
            return all(x is True or (x is not False and c.implied(x))
                       for _n, x in S.time_goals("t", v, systime_of(g.tau)))
    raise AssertionError(name)


def initial_cands(kd, v):
    out = []
    if kd in ("int", "bool"):
        u = sim(unint(v))
        if isinstance(u, int):
            out.append(("const", v))
        out += list(INT_CANDS if kd == "int" else BOOL_CANDS)
    elif kd == "count":
        out.append("full")
    elif kd == "float":
        out += [("const", v)] if not V.is_sym(v) else []
        out += ["tau", "clock"]
    elif kd == "time":
        out += ["tau", "fields"]
    elif kd == "const":
        out.append(("const", v))
    if kd in ("int", "bool", "const"):
        out.append(("config", Config()))
    return out


def make_value(c, kd, names, sample, g):
    """an arbitrary value of the location for which the candidates `names` hold"""
    for n in names:
        if n[0] == "const":
            for m in names:
                if m[0] in ("const", "config"):
                    continue
                if kd == "int":
                    c.add(INT_CANDS[m](g) == int(n[1]))
                elif kd == "bool":
                    c.add(BOOL_CANDS[m](g) == bool(n[1]))
            return n[1]
    for n in names:
        if n[0] == "config":
            v = n[1].value(c, kd, g)
            for m in names:
                if m is not n:
                    c.add(INT_CANDS[m](g) == v.t if kd == "int" else
                          BOOL_CANDS[m](g) == v.t)
            return v
    if kd == "int":
        for n in names:
            x = INT_CANDS[n](g)
            for m in names:
                if m != n:
                    c.add(x == INT_CANDS[m](g))
            return V.mkint(sim(x))
        return V.fresh_int("field", inp=False)
    if kd == "bool":
        for n in names:
            x = BOOL_CANDS[n](g)
            for m in names:
                if m != n:
                    c.add(x == BOOL_CANDS[m](g))
            return V.mkbool(z3.simplify(x))
        return SymBool(z3.Bool(c.fresh("flag")))
    if kd == "count":
        v = V.fresh_int("pieces", 0, inp=False)
        if "full" in names:
            c.add(z3.Implies(v.t > 0, ii(g.B.n) > 0))
        return v
    if kd == "float":
        if "clock" not in names:
            return Poison("computed float")
        f = SymFloat(0.0, shims.CLOCK_MAX)
        if "tau" in names:
            c.add(z3.Implies(ii(g.k) > 0, f.r == g.tau.r))
        return f
    if kd == "time":
        vals = {n: V.fresh_int(f"time.{n}", 0, 65535, inp=False)
                for n, _o, _t in L.STRUCTS["SystemTime"][2]}
        st = C.build("SystemTime", vals)
        if "tau" in names and c.implied(ii(g.k) > 0):
            for _n, x in S.time_goals("t", st, systime_of(g.tau)):
                c.add(x)
        return st
    return Poison(f"{kd} attribute")


# ----------------------------------------------------------------- records
class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def encoder_errors():
    """what an encoder may raise: one instance per class a handler could name"""
    import struct
    import zlib
    plain = (Boom, struct.error, ValueError, TypeError, OverflowError, AttributeError, IndexError,
             KeyError, AssertionError, NotImplementedError, RuntimeError, ZeroDivisionError,
             OSError, EOFError, StopIteration, MemoryError, BufferError, zlib.error, RecursionError,
             ArithmeticError, LookupError, Exception, BaseBoom)
    return [k("boom") for k in plain] + [UnicodeEncodeError("cp1252", "\u1234", 0, 1, "boom"),
                                        UnicodeDecodeError("cp1252", b"\x81", 0, 1, "boom")]


_REC = {}


def record_class():
    base = C.klass("ObjectWithHeader")
    if base not in _REC:
        class Record(base):
            """a record of any class: pack() gives its encoding (C03) or raises"""

            def __init__(self, header, enc, exc):
                self.header, self._vc_enc, self._vc_exc = header, enc, exc
                self._vc_pick = None

            def pack(self):
                if self._vc_exc is not None:
                    if self._vc_pick is None:
                        c = core.ctx()
                        self._vc_pick = c.choose([z3.BoolVal(True)] * len(self._vc_exc))
                    raise self._vc_exc[self._vc_pick]
                return self._vc_enc
        _REC[base] = Record
    return _REC[base]


def make_record(c, enc, declared, exc):
    base = C.build("ObjectHeaderBase", {
        "signature": b"LOBJ", "header_size": V.fresh_int("header_size", 0, 65535, inp=False),
        "header_version": V.fresh_int("header_version", 0, 65535, inp=False),
        "object_size": declared,
        "object_type": V.mkint(z3.Int(c.fresh("object_type")), C.klass("ObjType"))})
    code = base.object_type.t
    c.add(C.member("ObjType", code))
    return record_class()(C.klass("HeaderWithBase")(base), enc, exc)


# ----------------------------------------------------------------- session
class WriterSession(C.CodecSession):
    def __init__(self, c, proved, plan):
        super().__init__(c, list(proved))
        self.plan = plan
        self.w = None
        self.active = False
        self.carrier = None
        self.loops = []
        self.what = "?"
        self.opened = []
        self.enc = None
        self.learning = self.late = False
        st = C.klass("SystemTime")
        f = C.method(st, "from_datetime")
        if f is not None:
            self.stubs[f] = self.from_datetime_stub(f, st)
        c.on_zcompress = True

    def from_datetime_stub(self, orig, cls):
        def stub(me, *a, **k):
            """contract of SystemTime.from_datetime (C13)"""
            c = self.c
            ok = me is cls and len(a) + len(k) <= 1 and set(k) <= {"dt", "value", "date"}
            d = a[0] if a else next(iter(k.values())) if k else None
            if ok and not a and not k:
                d = shims.from_timestamp(shims.now_reading(), shims._rdt.timezone.utc)
            if not ok or type(d) is not shims.SymDatetime or d.tzinfo not in (
                    None, shims._rdt.timezone.utc):
                self.stubs.pop(orig, None)
                try:
                    return orig(me, *a, **k)
                finally:
                    self.stubs[orig] = stub
            memo = self.__dict__.setdefault("times", {})
            if id(d) not in memo:
                vals = {n: V.fresh_int(f"stored.{n}", 0, 65535, inp=False)
                        for n, _o, _t in L.STRUCTS["SystemTime"][2]}
                st = C.build("SystemTime", vals)
                for _n, x in S.time_goals("t", st, d):
                    c.add(x)
                memo[id(d)] = (d, vals)
            return C.build("SystemTime", dict(memo[id(d)][1]))
        return stub

    def open_file(self, file, mode="r", *a, **k):
        mode = k.get("mode", mode)
        self.opened.append((file, mode))
        if a or set(k) - {"buffering", "mode"}:
            raise Unsupported("open() options")
        kind = "".join(sorted(mode))
        if kind in ("bw", "+bw"):
            return shims.SymStream(SymBytes([]), 0, "file", "wb")
        if kind in ("+br", "ab", "+ab", "bx", "+bx"):
            # a file of any content may exist already
            there = self.c.branch(z3.Bool(self.c.fresh("file_exists")))
            if kind[0] == "b" and kind[1] == "x" or "x" in kind:
                if there:
                    raise FileExistsError(17, "File exists")
                return shims.SymStream(SymBytes([]), 0, "file", "wb")
            if not there:
                if "r" in kind:
                    raise FileNotFoundError(2, "No such file or directory")
                return shims.SymStream(SymBytes([]), 0, "file", "wb")
            old = V.fresh_bytes("old_content")
            return shims.SymStream(old, 0 if "r" in kind else old.n, "file", "wb")
        raise Unsupported(f"open() with mode {mode!r}")

    # ---- proving
    def prove(self, name, goal, tags, detail=None):
        for t in (tags if isinstance(tags, tuple) else (tags,)):
            r = self.c.prove(f"{self.what}: {name}", goal, t, detail=detail)
        return r

    def refute(self, name, tags, detail=None):
        g = z3.Bool(self.c.fresh("unreachable"))
        self.c.add(z3.Not(g))
        return self.prove(name, g, tags, detail)

    # ---- an arbitrary state in the invariant
    def begin(self, what):
        c, plan = self.c, self.plan
        self.what = what
        level = V.fresh_int("level", 0, 9)
        bufsize = V.fresh_int("buffer_size", 1)
        g = self.fresh_ghosts(level, bufsize, inp=True)
        self.g = g
        c.add(fits(g.bufsize, g.B.n))
        c.add(z3.And(ii(g.k) <= (1 << 31), ii(g.S) <= BIG, ii(g.L) <= BIG, ii(g.P) <= BIG))
        self.head = V.fresh_bytes("head", 144, inp=False)
        self.w = self.build(g)
        self.assume_facts(plan.facts, g)
        self.active = True
        self.loops = []
        self.start_segment()
        self.clock_from = len(c.clock_log)
        c.cover(what)
        return self.w

    def fresh_ghosts(self, level, bufsize, inp=False):
        c = self.c
        fi = lambda n, lo, hi=None: V.fresh_int(n, lo, hi, inp=inp).t  # noqa: E731
        g = Ghost(level=level.t, bufsize=bufsize.t, k=fi("k", 0), S=fi("S", 0), L=fi("L", 144),
                  P=fi("P", 0), t=fi("t", 0, 7), pad=fi("pad", 0, 7),
                  tau=SymFloat(0.0, shims.CLOCK_MAX), B=V.fresh_bytes("pending", inp=inp))
        c.add(ii(g.B.n) <= BIG)
        return g

    def assume_facts(self, facts, g):
        c = self.c
        for n in FACTS:
            if n in facts:
                c.add(self.fact(n, g))
        c.add(z3.And(*[self.head.at(i) == b for i, b in enumerate(b"LOGG")]))
        c.add(self.head.at(13) == ii(g.level))

    def fact(self, n, g):
        if n == "t":
            return z3.Or(ii(g.t) == 0, ii(g.B.n) % 8 == 0)
        if n == "pad":
            return z3.Or(ii(g.pad) == 0, ii(g.L) % 8 == 0)
        if n == "P8":
            return z3.Implies(ii(g.bufsize) % 8 == 0, ii(g.P) % 8 == 0)
        if n == "PB8":
            return (ii(g.P) + ii(g.B.n)) % 8 == 0
        if n == "small":
            return ii(g.B.n) < ii(g.bufsize)
        raise AssertionError(n)

    def build(self, g):
        c, plan = self.c, self.plan
        self.stream = shims.SymStream(self.content(g), 0, "file", "wb")
        self.stream.pos = ii(g.L) if "pos" in plan.facts else self.any_pos(g)
        self.stream.hooks = self.rewrites

        def mk(shape, path):
            cls, fields = shape
            o = object.__new__(cls)
            root.append(o)
            for name, (kd, sample, sub) in fields.items():
                p = (*path, name)
                if kd == "file":
                    v = self.stream
                elif kd == "obj":
                    v = mk(sub, p)
                elif kd == "mem":
                    at = (*p, "pos")
                    v = shims.SymStream(g.B if p == plan.buffer else SymBytes([]), 0, "mem",
                                        "r+b")
                    v.pos = unint(make_value(c, "int", plan.cands.get(at, []),
                                             plan.kinds[at][1], g))
                    c.add(ii(v.pos) >= 0)
                elif kd == "pieces":
                    if p != plan.buffer:
                        raise Unsupported("a list that holds no pending bytes")
                    n = make_value(c, "count", plan.cands.get((*p, "k"), []), None, g)
                    v = V.SymPieces(g.B, unint(n))
                elif kd == "rope":
                    if p == plan.buffer:
                        v = SymByteArray(g.B) if sample is SymByteArray else g.B
                    elif plan.cands.get(p):
                        v = plan.cands[p][0][1]
                    else:
                        v = V.fresh_bytes(name, inp=False)
                else:
                    v = make_value(c, kd, plan.cands.get(p, []), sample, g)
                if type(v) is Method:
                    v = types.MethodType(v.func, root[0])
                object.__setattr__(o, name, v)
            return o
        root = []
        return mk(plan.shape, ())

    def rewrites(self, pos, r):
        """a write that does not append (or a truncation, r None): a crash in its midst must
        leave the signature, the compression level and the containers"""
        self.prove("what is in the file is never cut off or overwritten",
                   z3.BoolVal(False) if r is None else ii(pos) + ii(r.n) <= 144, "append")
        if r is None:
            return
        k, goal = r.n, []
        for at, want in [*enumerate(b"LOGG"), (13, ii(self.g.level))]:
            x = ii(at) - ii(pos)
            goal.append(z3.Implies(z3.And(x >= 0, x < ii(k)), ii(r.at(sim(x))) == want))
        self.prove("rewriting the block keeps its signature and compression level",
                   z3.And(*goal), "append")

    def any_pos(self, g):
        p = z3.Int(self.c.fresh("pos"))
        self.c.add(z3.And(p >= 0, p <= ii(g.L)))
        return p

    def content(self, g):
        self.body = V.fresh_bytes("body", isub(g.L, 144), inp=False)
        return SymBytes.of(self.head.segs + self.body.segs)

    def start_segment(self):
        self.parsed = None
        self.seg_g = self.g
        self.seg_body = self.body
        self.seen_enc = getattr(self, "seen_enc", False)

    # ---- what has been appended since the segment began
    def parse(self):
        """payload of the containers appended in this segment, ghosts of the file after it"""
        c, g = self.c, self.g
        content = self.stream.content
        n = content.n
        self.prove("the file never shrinks", ii(n) >= ii(self.seg_g.L), "append")
        c.add(ii(n) <= 2 * BIG)
        head = content.slice_terms(0, 144)
        self.prove("the statistics block keeps its signature and compression level", z3.And(
            *[head.at(i) == b for i, b in enumerate(b"LOGG")], head.at(13) == ii(g.level)),
            "append")
        self.prove("what is in the file stays", V.rope_eq_goal(
            content.slice_terms(144, isub(self.seg_g.L, 144)), self.seg_body),
            ("append", "stream"))
        A = content.slice_terms(self.seg_g.L, isub(n, self.seg_g.L))
        Q, Lq, pad = [], self.seg_g.L, self.seg_g.pad
        for _ in range(6):
            if c.implied(ii(A.n) == 0):
                break
            if not c.implied(ii(A.n) >= 32):
                if not c.branch(ii(A.n) > 0):
                    break
                if c.branch(ii(A.n) < 8):
                    self.prove("only alignment padding follows the last container", z3.And(
                        zeros(A), ii(pad) + ii(A.n) < 8), ("layout", "stream"))
                    pad = iadd(pad, A.n)
                    Lq = iadd(Lq, A.n)
                    A = SymBytes([])
                    break
            A, w, payload = self.container(A, Lq, pad)
            pad = 0
            Lq = iadd(Lq, w)
            Q += payload.segs
        else:
            raise Unsupported("many containers in one step")
        return SymBytes.of(Q), Lq, pad

    def container(self, A, Lq, pad):
        c, g = self.c, self.g
        both = ("layout", "stream")
        w = lobj_at(A)
        if w is None:
            w = sim((-ii(Lq)) % 8)
        ok = z3.And(ii(w) >= 0, ii(A.n) >= ii(w) + 32)
        self.prove("what is appended is whole containers", ok, both)
        self.prove("containers are preceded only by zero bytes",
                   zeros(A.slice_terms(0, w)), both)
        self.prove("every container starts at a multiple of eight",
                   (ii(Lq) + ii(w)) % 8 == 0, "layout")
        self.prove("fewer than eight bytes precede a container", ii(pad) + ii(w) < 8, "layout")
        h = A.slice_terms(w, 32)
        f = lambda o, k: ii(unint(V.le_to_int([h.at(o + j) for j in range(k)])))  # noqa: E731
        self.prove("a container carries the record signature",
                   z3.And(*[h.at(i) == b for i, b in enumerate(b"LOBJ")]), both)
        self.prove("a container's header size is 32", f(4, 2) == 32, "layout")
        self.prove("a container's header version is 1", f(6, 2) == 1, "layout")
        self.prove("a container's type code is 10", f(12, 4) == 10, both)
        size = sim(f(8, 4))
        self.prove("a container's size is at least its header's",
                   ii(size) >= 32, both)
        rest = isub(A.n, w)
        self.prove("a container is complete", ii(size) <= ii(rest), both)
        nxt = A.slice_terms(iadd(w, size), isub(rest, size))
        # the size must be the bytes the container occupies: what follows is the next one
        self.prove("a container's size is the bytes it occupies", z3.Or(
            ii(nxt.n) == 0, z3.And(ii(nxt.n) < 8, zeros(nxt)),
            lobj_at(nxt) is not None), both)
        data = A.slice_terms(iadd(w, 32), isub(size, 32))
        plain = None
        for comp, pl in c.zmemo:
            gl = V.rope_eq_goal(comp, data)
            if gl is True or (gl is not False and c.implied(gl)):
                plain = pl
                break
        method = f(16, 2)
        if plain is not None:
            self.prove("a compressed container says so", method == 2, "layout")
            self.prove("containers are compressed only if the file's level says so",
                       ii(g.level) > 0, "rt")
        else:
            self.prove("a stored container says so", method == 0, "layout")
            self.prove("containers are stored only if the file's level says so",
                       ii(g.level) == 0, "rt")
            plain = data
        self.prove("a container states its uncompressed size", f(24, 4) == ii(plain.n), "layout")
        self.prove("no payload exceeds the buffer size", ii(plain.n) <= ii(g.bufsize), "layout")
        return nxt, iadd(w, size), plain

    def pending(self):
        if self.carrier is not None:
            return self.carrier()
        r = content_of(get(self.w, self.plan.buffer))
        if r is None:
            raise Unsupported("the pending bytes are not a byte string")
        return r

    def segment_end(self, what, closing=False):
        """ghosts after the segment; proves the stream equation"""
        c, g0 = self.c, self.seg_g
        Q, Lq, pad = self.parsed or self.parse()
        self.parsed = None
        Bp = SymBytes([]) if closing else self.pending()
        X = SymBytes.of(Q.segs + Bp.segs)
        P = iadd(g0.P, Q.n)
        at = None
        if self.enc is not None and not self.seen_enc:
            at = find_arr(X, self.enc.segs[0].a)
        tag = ("reject", "stream") if self.expect == "reject" else "stream"
        if at is None:
            n1 = sim(isub(X.n, g0.B.n))
            self.prove(f"{what}: nothing of the pending bytes is lost or changed", z3.And(
                ii(n1) >= 0, V.tobool_z(V.rope_eq_goal(
                    X, SymBytes.of([*g0.B.segs, Fill(0, n1)])))),
                ("stream", "final") if closing else tag)
            self.prove(f"{what}: fewer than eight zero bytes follow a record",
                       ii(g0.t) + ii(n1) < 8, tag)
            return g0.copy(L=Lq, pad=pad, P=P, B=Bp, t=sim(ii(g0.t) + ii(n1)))
        if self.expect == "reject":
            self.prove("nothing of a rejected record is kept", False, ("reject", "stream"))
            raise PathEnd()
        self.seen_enc = True
        n1 = sim(isub(at, g0.B.n))
        n2 = sim(isub(isub(X.n, at), self.enc.n))
        self.prove(f"{what}: the pending bytes continue with the record's encoding", z3.And(
            ii(n1) >= 0, ii(n2) >= 0, V.tobool_z(V.rope_eq_goal(
                X, SymBytes.of([*g0.B.segs, Fill(0, n1), *self.enc.segs, Fill(0, n2)])))), tag)
        self.prove(f"{what}: fewer than eight zero bytes separate records", z3.And(
            ii(g0.t) + ii(n1) < 8, ii(n2) < 8), tag)
        self.prove(f"{what}: the record starts at a multiple of eight when the buffer size is one",
                   z3.Implies(ii(g0.bufsize) % 8 == 0,
                              (ii(g0.P) + ii(at)) % 8 == 0), "layout")
        return g0.copy(L=Lq, pad=pad, P=P, B=Bp, t=n2)

    def could_end(self, Bp):
        """does the stream equation hold if Bp is what is pending?"""
        c, g0 = self.c, self.seg_g
        self.parsed = self.parse()
        X = SymBytes.of(self.parsed[0].segs + Bp.segs)
        at = None
        if self.enc is not None and not self.seen_enc:
            at = find_arr(X, self.enc.segs[0].a)
        if at is None:
            n1 = sim(isub(X.n, g0.B.n))
            goal = z3.And(ii(n1) >= 0, V.tobool_z(V.rope_eq_goal(
                X, SymBytes.of([*g0.B.segs, Fill(0, n1)]))))
        else:
            n1, n2 = sim(isub(at, g0.B.n)), sim(isub(isub(X.n, at), self.enc.n))
            goal = z3.And(ii(n1) >= 0, ii(n2) >= 0, V.tobool_z(V.rope_eq_goal(
                X, SymBytes.of([*g0.B.segs, Fill(0, n1), *self.enc.segs, Fill(0, n2)]))))
        return c.implied(goal)

    # ---- candidates
    def check_facts(self, facts, g, where):
        c = self.c
        for n in sorted(facts):
            if n == "pos":
                ok = c.implied(ii(self.stream.pos) == ii(g.L))
            elif n in ("t=", "count"):
                continue
            else:
                ok = c.implied(self.fact(n, g))
            if not ok:
                facts.discard(n)
                self.plan.note(f"{where}: fact {n} dropped")

    def check_locations(self, g, where):
        plan, c = self.plan, self.c
        now = {p: (kd, v) for p, kd, v in walk(self.w)}
        for p in now:
            if p not in plan.kinds:
                raise Unsupported(f"attribute {'.'.join(p)} appears after construction")
        for p, (kd0, _s) in plan.kinds.items():
            if p not in now:
                raise Unsupported(f"attribute {'.'.join(p)} disappears")
            kd, v = now[p]
            if kd0 == "file":
                if v is not self.stream:
                    raise Unsupported("the stream is replaced")
                continue
            if kd0 == "obj":
                if kd != "obj":
                    raise Unsupported(f"{'.'.join(p)} changes its type")
                continue
            if p == plan.buffer:
                if kd != kd0:
                    raise Unsupported("the pending bytes change their type")
                continue
            if kd0 == "pieces":
                raise Unsupported("a list that holds no pending bytes")
            if kd0 == "mem":
                raise Unsupported(f"a stream in memory that holds no pending bytes")
            if kd0 == "rope":
                if plan.cands.get(p) and not (kd == "rope" and unchanged(plan.cands[p][0][1], v)):
                    plan.cands[p] = []
                    plan.note(f"{where}: {'.'.join(p)} changes")
                continue
            names = plan.cands.get(p, [])
            if kd0 == "other":
                continue
            if kd != kd0:
                raise Unsupported(f"{'.'.join(p)} changes its type to {type(v).__name__}")
            keep = [n for n in names if holds(c, n, kd, v, g)]
            if len(keep) != len(names):
                plan.cands[p] = keep
                plan.note(f"{where}: {'.'.join(p)} is {keep} only")

    # ---- loops
    def left_loops(self):
        """the operation has returned: no loop is running, wherever the return was"""
        self.loops = []
        self.carrier = None

    def running(self):
        """loops whose function is still running (a return from inside leaves no trace)"""
        f, frames = sys._getframe(), set()
        while f is not None:
            frames.add(id(f))
            f = f.f_back
        self.loops = [x for x in self.loops if id(x.loop.frame) in frames
                      or x.loop.frame.f_code.co_flags & 0x20]
        return self.loops

    def loop_rule(self, loop):
        if self.late:
            return Native(self)
        if not self.active or self.w is None:
            return None
        if not any(v is self.w for v in loop.frame.f_locals.values()):
            return None
        if loop.where in self.plan.native or self.running():
            return Native(self)
        if loop.is_for:
            r = loop.iterable
            if type(r) is shims.CallIter:
                return WriterLoop(self, loop)
            if type(r) is not shims.SymRange or not self.c.implied(ii(r.step) > 0) or \
                    self.c.implied(ii(r.hi) - ii(r.lo) <= 16 * ii(r.step)):
                return None
        return WriterLoop(self, loop)


class Native:
    """a short loop (alignment, say) is executed turn by turn"""
    TURNS = 12

    def __init__(self, s):
        self.n = 0

    def head(self, loop, loc):
        self.n += 1
        if self.n > self.TURNS:
            raise Unsupported(f"loop without invariant at {loop.where}")
        return None

    def exit(self, loop):
        pass


class WriterLoop:
    """An arbitrary turn of a loop over the writer's state.

    Somewhere the loop keeps the bytes that are still to be written: in the writer's buffer or in
    a local byte string, all of it or from an offset on (an integer variable or the value of a
    range).  The places are tried in turn (`carriers`)."""

    def __init__(self, s, loop):
        self.s, self.loop = s, loop
        self.n = self.after = 0
        self.counted = None         # how many pieces of bytes there are, in a list of pieces
        r = loop.iterable if type(loop.iterable) is shims.SymRange else None
        self.range = r
        self.index = r.lo if r is not None else None

    def head(self, loop, loc):
        self.n += 1
        return self.enter(loop, loc) if self.n == 1 else self.back(loop, loc)

    # a for loop over a range is driven by its rule
    def more(self, loop):
        c = self.s.c
        d = ii(self.index) < ii(self.range.hi)
        return c.branch(z3.simplify(d)) if not isinstance(d, bool) else d

    def next(self, loop):
        v = self.index
        self.index = iadd(v, self.range.step)
        return V.mkint(v)

    # ---- where the bytes are that are still to be written
    def choices(self, loc):
        ropes = [None] + [k for k, v in loc.items() if rope_of(v) is not None]
        names = self.loop.names
        offs = [None] + (["<range>"] if self.range is not None else []) + [
            k for k in self.loop.names if k in loc and unint(loc[k]) is not None
            and not isinstance(loc[k], (bool, SymBool))]
        return [(r, o) for r in ropes for o in offs
                if r is None or r in names or o is not None]

    def source(self, loc):
        r = self.choice[0]
        return get(self.s.w, self.s.plan.buffer) if r is None else loc.get(r)

    def offset(self, loc):
        o = self.choice[1]
        return 0 if o is None else self.index if o == "<range>" else unint(loc.get(o))

    def carried(self, loc):
        """the bytes to be written, or None when they are not at this place"""
        c = self.s.c
        r, o = content_of(self.source(loc)), self.offset(loc)
        if r is None or o is None:
            return None
        if self.choice[0] is not None:
            buf = get(self.s.w, self.s.plan.buffer)
            if not c.implied(ii(content_of(buf).n) == 0):
                return None
            if type(buf) is V.SymPieces and not c.implied(ii(buf.count()) == 0) \
                    or type(buf) is list and buf:
                return None
        if self.choice[1] is not None:
            if not c.implied(ii(o) >= 0):
                return None
            if not c.branch(ii(o) <= ii(r.n)):
                return SymBytes([])
            r = r.slice_terms(o, isub(r.n, o))
        return r

    def place(self, loc, what):
        """ghosts at this point of the loop, or the next choice of a place"""
        s, plan = self.s, self.s.plan
        r = self.carried(loc)
        if r is None or not (self.last or s.could_end(r)):
            self.reject_choice("does not hold the pending bytes")
        s.carrier = lambda: r
        g = s.segment_end(what)
        s.carrier = None
        return g

    def reject_choice(self, why):
        plan = self.s.plan
        if not self.last:
            plan.carriers[self.site].pop(0)
            plan.forget()
            plan.note(f"{self.site}: {self.choice} {why}")
            raise PathEnd()
        raise Unsupported(f"loop at {self.site}: where the pending bytes are kept is unclear")

    def enter(self, loop, loc):
        s, c, plan = self.s, self.s.c, self.s.plan
        s.loops.append(self)
        site = self.site = loop.where
        if site not in plan.carriers:
            # the first choice comes back at the end, to name what fails when nothing fits
            ch = self.choices(loc)
            plan.carriers[site] = [*ch, ch[0]]
        cs = plan.carriers[site]
        self.choice, self.last = cs[0], len(cs) == 1
        g = self.place(loc, "before the loop")
        mods = plan.loop_mods.setdefault(site, set())
        facts = plan.loop_facts.setdefault(site, {"pos", "t=", "count", *FACTS})
        s.check_facts(facts, g, site)
        self.check_count(facts, g)
        # an arbitrary turn
        fi = lambda n, lo, hi=None: V.fresh_int(n, lo, hi, inp=False).t  # noqa: E731
        out = {}
        src, off = self.source(loc), None
        if self.range is not None:
            i0 = self.index
            self.index = fi("index", None)
            c.add(ii(self.index) >= ii(i0))
        if self.choice[1] is not None:
            off = self.index if self.choice[1] == "<range>" else fi("offset", 0)
            c.add(ii(off) >= ii(self.offset0(loc, i0 if self.range is not None else None)))
            whole = content_of(src)
            if self.choice[0] is None or self.choice[0] in loop.names:
                whole = V.fresh_bytes("data", whole.n, inp=False)
            if c.branch(ii(off) <= ii(whole.n)):
                B2 = whole.slice_terms(off, isub(whole.n, off))
            else:
                B2 = SymBytes([])
        else:
            whole = B2 = V.fresh_bytes("pending", inp=False)
        g2 = g.copy(L=fi("L", 144), P=fi("P", 0), t=fi("t", 0, 7), pad=fi("pad", 0, 7), B=B2)
        c.add(z3.And(ii(g2.L) >= ii(g.L), ii(g2.L) <= BIG, ii(g2.P) >= ii(g.P),
                     ii(g2.P) <= BIG, ii(g2.B.n) <= BIG, fits(g2.bufsize, g2.B.n)))
        cands = plan.loop_cands.setdefault(site, {})
        for p, kd, v in list(walk(s.w)):
            if p not in mods and kd != "count":
                continue
            if p not in cands:
                cands[p] = [n for n in initial_cands(kd, v) if n[0] not in ("const", "config")]
            keep = [n for n in cands[p] if holds(c, n, kd, v, g)]
            if len(keep) != len(cands[p]):
                cands[p] = keep
                plan.note(f"{site}: {'.'.join(p)} is {keep} only")
            x = make_value(c, kd, keep, v, g2)
            if kd == "count":
                self.counted = x
            else:
                put(s.w, p, x)
        self.put_source(whole, out)
        for n in FACTS:
            if n in facts:
                c.add(s.fact(n, g2))
        if "t=" in facts:
            c.add(ii(g2.t) == ii(g.t))
        if "count" in facts:
            c.add(self.count_fact(g2))
        # the turns so far moved pending bytes into containers and added zeros only
        c.add(ii(g2.P) + ii(g2.B.n) - ii(g2.t) == ii(g.P) + ii(g.B.n) - ii(g.t))
        if "head" in mods:
            s.head = V.fresh_bytes("head", 144, inp=False)
            c.add(z3.And(*[s.head.at(i) == b for i, b in enumerate(b"LOGG")]))
            c.add(s.head.at(13) == ii(g2.level))
        else:
            s.head = s.stream.content.slice_terms(0, 144)
        s.stream.content = s.content(g2)
        s.stream.pos = ii(g2.L) if "pos" in facts else s.any_pos(g2)
        s.g = g2
        s.start_segment()
        self.attrs = {p: v for p, _k, v in walk(s.w)}
        self.enc_seen = s.seen_enc
        self.readings = len(c.clock_log)
        lm = plan.loop_locals.setdefault(site, set())
        lc = plan.loop_lcands.setdefault(site, {})
        for k in loop.names:
            if k in out:
                continue
            if k not in loc:
                out[k] = core.UNBOUND
            elif k == self.choice[1]:
                out[k] = V.mkint(off)
            elif k in lm:
                out[k] = self.local(k, loc[k], lc, g, g2)
            else:
                out[k] = loc[k]
        self.locals = dict(out)
        self.whole = whole
        self.outer = state.Outer(loop.frame)
        self.hidden = state.Snapshot(
            [*((k, v) for k, v in loc.items() if k not in out), *out.items(),
             *self.outer.locals()],
            [id(s.w), id(s.stream), id(self.source({**loc, **out})),
             *(id(v) for _p, kd, v in walk(s.w) if kd in ("file", "obj", "mem", "rope", "pieces"))])
        return out

    def offset0(self, loc, i0):
        return i0 if self.choice[1] == "<range>" else unint(loc[self.choice[1]])

    def put_source(self, whole, out):
        s = self.s
        if self.choice[0] is not None:
            if self.choice[0] in self.loop.names:
                out[self.choice[0]] = whole
            return
        buf = get(s.w, s.plan.buffer)
        if type(buf) is SymByteArray:
            buf.v = whole
        elif type(buf) is shims.SymStream:
            buf.content = whole
        elif V.pieces_of(buf) is not None:
            if any(v is buf for v in out.values()) or any(
                    v is buf for v in self.loop.frame.f_locals.values()):
                raise Unsupported("a second name for the list of pending bytes")
            n = self.counted if self.counted is not None else V.fresh_int("pieces", 0, inp=False)
            put(s.w, s.plan.buffer, V.SymPieces(whole, unint(n)))
        else:
            put(s.w, s.plan.buffer, whole)

    def local(self, k, v, lc, g, g2):
        """an arbitrary value of a local that the loop changes"""
        kd = "bool" if isinstance(v, (bool, SymBool)) else "int" if unint(v) is not None else None
        if kd is None:
            return havoc_value(v, k)
        if k not in lc:
            lc[k] = list(LOOP_BOOLS if kd == "bool" else INT_CANDS)
        keep = [n for n in lc[k] if self.local_holds(n, kd, v, g)]
        if len(keep) != len(lc[k]):
            lc[k] = keep
            self.s.plan.note(f"{self.site}: {k} is {keep} only")
        if not keep:
            return havoc_value(v, k)
        if kd == "int":
            return make_value(self.s.c, kd, keep, v, g2)
        f = z3.Bool(self.s.c.fresh(k))
        for n in keep:
            self.s.c.add(LOOP_BOOLS[n](g2, f))
        return SymBool(f)

    def local_holds(self, n, kd, v, g):
        u = unint(v)
        if u is None:
            return False
        return self.s.c.implied(LOOP_BOOLS[n](g, ii(u) != 0) if kd == "bool"
                                else ii(u) == INT_CANDS[n](g))

    def count_fact(self, g):
        """there are exactly as many turns left as the pending bytes fill containers"""
        left, z = ii(self.range.hi) - ii(self.index), ii(g.bufsize)
        return z3.And(left >= 0, left * z >= ii(g.B.n), left * z - z < ii(g.B.n))

    def check_count(self, facts, g):
        if "count" in facts and not (
                self.range is not None and self.choice[1] is None
                and self.s.c.implied(ii(self.range.step) == 1)
                and self.s.c.implied(self.count_fact(g))):
            facts.discard("count")
            if self.range is not None:
                self.s.plan.note(f"{self.site}: count")

    def back(self, loop, loc):
        s, c, plan = self.s, self.s.c, self.s.plan
        if c.check() == z3.unsat:
            raise PathEnd()         # a branch that could not be ruled out when it was taken
        g2 = s.g
        g = self.place(loc, "a turn of the loop")
        if s.seen_enc != self.enc_seen:
            raise Unsupported("a record is added in a loop")
        if self.site in plan.after and self.after < AFTER and not c.branch(ii(g.B.n) > 0):
            # everything is written: no cut here, the code itself has to leave the loop
            self.after += 1
            s.g = g
            s.head = s.stream.content.slice_terms(0, 144)
            s.body = s.stream.content.slice_terms(144, isub(s.stream.content.n, 144))
            s.start_segment()
            return None
        done = [ii(g.B.n) < ii(g2.B.n)]
        for k in loop.names:
            f0, f1 = self.locals.get(k), loc.get(k)
            if isinstance(f0, (bool, SymBool)) and isinstance(f1, (bool, SymBool)):
                # or everything is written and a flag says so
                up = z3.And(ii(unint(f0)) == 0, ii(unint(f1)) == 1)
                down = z3.And(ii(unint(f0)) == 1, ii(unint(f1)) == 0)
                keep = plan.loop_flags.setdefault((self.site, k), ["down", "up"])
                if keep:
                    done.append(z3.And(ii(g.B.n) == ii(g2.B.n), down if keep[0] == "down" else up))
        done = z3.Or(*done)
        if self.range is not None:
            done = z3.BoolVal(True)         # a range ends
        if not c.implied(done) and self.after == 0:
            # first find out which variables the loop changes: a condition may depend on them
            n = len(plan.log)
            self.changes(loc)
            if len(plan.log) > n:
                raise PathEnd()
            for k in loop.names:
                if plan.loop_flags.get((self.site, k)):
                    plan.loop_flags[self.site, k].pop(0)
                    plan.note(f"{self.site}: {k} is no flag")
                    raise PathEnd()
            if self.site not in plan.after:
                plan.after.add(self.site)
                plan.forget()
                plan.note(f"{self.site}: a turn may find nothing to write")
                raise PathEnd()
            # not a loop that writes: executed turn by turn
            if not self.last:
                self.reject_choice("makes no progress")
            plan.native.add(self.site)
            plan.forget()
            plan.note(f"{self.site}: no progress")
            raise PathEnd()
        s.prove("every turn of the loop makes progress", done, "stream")
        if self.choice[1] is not None and not unchanged(
                self.whole, content_of(self.source(loc))):
            self.reject_choice("changes")
        facts = plan.loop_facts[self.site]
        if "t=" in facts and not c.implied(ii(g.t) == ii(g2.t)):
            facts.discard("t=")
            plan.note(f"{self.site}: zeros are added")
        s.check_facts(facts, g, self.site)
        self.check_count(facts, g)
        mods, cands = plan.loop_mods[self.site], plan.loop_cands[self.site]
        for p, kd, v in walk(s.w):
            if p == plan.buffer or kd in ("file", "obj", "mem", "pieces"):
                continue
            if p in mods or kd == "count":
                keep = [n for n in cands[p] if holds(c, n, kd, v, g)]
                if len(keep) != len(cands[p]):
                    cands[p] = keep
                    plan.note(f"{self.site}: {'.'.join(p)} is {keep} only")
            elif p not in self.attrs and kd != "count":
                raise Unsupported("attribute appears in a loop")
            elif not same_value(self.attrs[p], v):
                mods.add(p)
                plan.note(f"{self.site}: {'.'.join(p)} changes")
        if "head" not in mods:
            h = V.rope_eq_goal(s.stream.content.slice_terms(0, 144), s.head)
            if not (h is True or (h is not False and c.implied(h))):
                mods.add("head")
                plan.note(f"{self.site}: the statistics block changes")
        lm, lc = plan.loop_locals[self.site], plan.loop_lcands[self.site]
        for k in loop.names:
            if k in self.choice or k not in loc or k not in self.locals \
                    or self.locals[k] is core.UNBOUND:
                continue
            if k in lm:
                if k in lc:
                    kd = "bool" if isinstance(loc[k], (bool, SymBool)) else "int"
                    keep = [n for n in lc[k] if n in (LOOP_BOOLS if kd == "bool" else INT_CANDS)
                            and self.local_holds(n, kd, loc[k], g)]
                    if len(keep) != len(lc[k]):
                        lc[k] = keep
                        plan.note(f"{self.site}: {k} is {keep} only")
        self.changes(loc)
        self.outer.check(same_value)
        self.hidden.check(f"at {self.site}", same_value)
        raise PathEnd()

    def changes(self, loc):
        """the locals that are not the same after a turn"""
        plan = self.s.plan
        lm = plan.loop_locals[self.site]
        for k in self.loop.names:
            if k in lm or k in self.choice or k not in loc or k not in self.locals \
                    or self.locals[k] is core.UNBOUND:
                continue
            if not same_value(self.locals[k], loc[k]):
                lm.add(k)
                plan.note(f"{self.site}: {k} changes")

    def exit(self, loop):
        if self in self.s.loops:
            self.s.loops.remove(self)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if type(a) is SymFloat and type(b) is SymFloat:
        return core.ctx().implied(a.r == b.r)
    if type(a) is C.klass("SystemTime") and type(b) is type(a):
        return all(same_value(getattr(a, n), getattr(b, n))
                   for n, _o, _t in L.STRUCTS["SystemTime"][2])
    if kind_of(a) == "const" and kind_of(b) == "const":
        return type(a) is type(b) and a == b
    return unchanged(a, b)


def zeros(r):
    """goal: every byte of r is zero"""
    if all(isinstance(s, Fill) and s.byte == 0 for s in r.segs):
        return z3.BoolVal(True)
    return V.tobool_z(V.rope_eq_goal(r, SymBytes.of([Fill(0, r.n)])))


def lobj_at(r):
    """offset of the first literal record signature in the rope"""
    p = 0
    for s in r.segs:
        if isinstance(s, Lit):
            k = s.b.find(b"LOBJ")
            if k >= 0:
                return sim(iadd(p, k))
        elif not isinstance(s, (Fill, Byte_)):
            return None
        p = iadd(p, s.n)
    return None


Byte_ = V.Byte


def find_arr(r, a):
    """where in r the array a begins (also when only a later part of it is there)"""
    p = 0
    for s in r.segs:
        if isinstance(s, Arr) and s.a.get_id() == a.get_id():
            return sim(isub(p, s.s))
        if isinstance(s, View):
            q = find_arr(s.r, a)
            if q is not None:
                return sim(iadd(isub(p, s.s), q))
        p = iadd(p, s.n)
    return None


# ----------------------------------------------------------------- operations
def drv_init(box):
    def run(c):
        s, plan = c.session, c.session.plan
        what = s.what = "BlfWriter()"
        level = V.fresh_int("level", 0, 9)
        bufsize = V.fresh_int("buffer_size", 1)
        stream = shims.SymStream(SymBytes([]), 0, "file", "wb")
        c.cover(what)
        w = C.call(c, what, "init", C.mod("writer").BlfWriter, stream, level, bufsize)
        s.stream = stream
        content = stream.content
        s.prove("writes exactly the statistics block", ii(content.n) == 144, ("init", "append"))
        if not c.implied(ii(content.n) == 144):
            raise PathEnd()
        d = C.dec("=FileStatistics", content, 0)
        s.prove("the block carries the file signature", V.rope_eq_goal(
            d["signature"], SymBytes.lit(b"LOGG")), ("init", "append"))
        s.prove("the block carries the compression level in use",
                d["compression_level"] == level.t, ("init", "append"))
        s.prove("the stream stays open", not stream.is_closed, "init")
        first = c.clock_log[0] if c.clock_log else SymFloat(0.0, shims.CLOCK_MAX)
        g = Ghost(level=level.t, bufsize=bufsize.t, k=z3.IntVal(0), S=z3.IntVal(0),
                  L=z3.IntVal(144), P=z3.IntVal(0), t=z3.IntVal(0), pad=z3.IntVal(0),
                  tau=first, B=SymBytes([]))
        s.w = w
        files = [v for _p, kd, v in walk(w) if kd == "file"]
        if not files or any(f is not stream for f in files):
            raise Unsupported("the writer does not hold the stream it was given")
        kinds, bufs = {}, []
        for p, kd, v in walk(w):
            sample = SymByteArray if type(v) in (SymByteArray, bytearray) else None
            kinds[p] = (kd, sample)
            if kd == "other":
                raise Unsupported(f"attribute {'.'.join(p)} of type {type(v).__name__}")
            if kd in ("rope", "mem", "pieces") and content_of(v).n == 0:
                bufs.append((p, sample))
        shape = shape_of(w, kinds, ())
        if plan.shape is None:
            plan.shape, plan.kinds = shape, kinds
            bufs.sort(key=lambda x: x[1] is None and kinds[x[0]][0] == "rope")
            plan.buffer_choices = [p for p, _s in bufs]
            if not bufs:
                raise Unsupported("no attribute for pending bytes")
            plan.buffer = plan.buffer_choices[0]
            for p, kd, v in walk(w):
                if kd in ("mem", "pieces"):
                    plan.cands[p] = []
                elif kd == "rope":
                    r = rope_of(v)
                    plan.cands[p] = [("const", bytes(v) if isinstance(v, bytearray) else v)] if \
                        all(isinstance(x, Lit) for x in r.segs) and p != plan.buffer and \
                        type(v) is not SymByteArray else []
                else:
                    plan.cands[p] = initial_cands(kd, v)
            plan.note("template")
        elif {p: k for p, (k, _s) in plan.kinds.items()} != {p: k for p, (k, _s) in kinds.items()}:
            raise Unsupported("the writer's attributes depend on the path")
        s.learning = True
        s.check_locations(g, what)
        s.learning = False
        s.check_facts(plan.facts, g, what)
    return run


def shape_of(o, kinds, path):
    fields = {}
    for k, v in vars(o).items():
        kd, sample = kinds[(*path, k)]
        fields[k] = (kd, sample, shape_of(v, kinds, (*path, k)) if kd == "obj" else None)
    return (type(o), fields)


def drv_init_path(kind):
    """BlfWriter(path): opens exactly that path for writing, with the documented defaults"""
    def run(c):
        s = c.session
        what = s.what = f"BlfWriter({kind})"
        arg = S.paths()[kind]
        c.cover(what)
        w = C.call(c, what, "init", C.mod("writer").BlfWriter, arg)
        s.prove("opens exactly the given path", len(s.opened) == 1 and S._path_eq(
            s.opened[0][0], arg), "init")
        st = [v for _p, kd, v in walk(w) if kd == "file"]
        s.prove("holds the open file", len(st) == 1 and not st[0].is_closed, "init")
        if len(st) != 1:
            raise PathEnd()
        s.prove("writes exactly the statistics block", ii(st[0].content.n) == 144, "init")
        d = C.dec("=FileStatistics", st[0].content, 0)
        s.prove("the block carries the file signature", V.rope_eq_goal(
            d["signature"], SymBytes.lit(b"LOGG")), "init")
        s.prove("compression is off by default", d["compression_level"] == 0, "init")
    return run


def fits(bufsize, n):
    """what goes into one container stays below 2^30 bytes (its header states the size in 32 bits)"""
    return z3.Or(ii(bufsize) < MAXBUF, ii(n) < MAXBUF)


HOWS = ("write()", "write() of a misdeclared record", "write() of an unencodable record")


def drv_write(how):
    def run(c):
        s, plan = c.session, c.session.plan
        s.expect = None
        w = s.begin(HOWS[how])
        E = V.fresh_bytes("record")
        d = V.fresh_int("declared")
        c.add(z3.And(ii(E.n) >= 16, ii(E.n) <= BIG))
        c.add(fits(s.g.bufsize, ii(s.g.B.n) + ii(E.n) + 8))
        if how < 2:
            c.add((d.t == ii(E.n)) if how == 0 else (d.t != ii(E.n)))
        exc = encoder_errors() if how == 2 else None
        s.enc = E
        s.seen_enc = False
        s.expect = "accept" if how == 0 else "reject"
        s.what = HOWS[how]
        rec = make_record(c, E, d, exc)
        before = C.snapshot(rec.header)
        g0 = s.g
        try:
            _out, e = C.attempt(w.write, rec)
        except BaseBoom as x:
            e = x
        if how == 0 and e is not None:
            s.refute("a well declared record is accepted", ("stream", "stat", "rt"),
                     f"{type(e).__name__}: {e} [{core._where(e)}]")
            raise PathEnd()
        if how == 1:
            s.prove("raises ValueError", isinstance(e, ValueError), "reject", detail=repr(e))
            if e is None:
                raise PathEnd()
        if how == 2:
            x = None if rec._vc_pick is None else exc[rec._vc_pick]
            s.prove("raises the encoder's error", e is not None and e is x, "reject",
                    detail=f"{e!r} for {x!r}")
            if e is None:
                raise PathEnd()
        C.prove_all(c, s.what + ": the record is not changed",
                    C.same("header", before, C.snapshot(rec.header)), "stream")
        s.prove("the stream stays open", not s.stream.is_closed, ("stream", "final"))
        if s.stream.is_closed:
            raise PathEnd()
        s.left_loops()
        g = s.segment_end("write")
        if how == 0:
            s.prove("the record's encoding is in the stream exactly once", s.seen_enc, "stream")
            if not s.seen_enc:
                raise PathEnd()
            rd = c.clock_log[s.clock_from:]
            s.prove("the time of an accepted write is taken from the clock", bool(rd), "stat")
            tau = rd[-1] if rd else SymFloat(0.0, shims.CLOCK_MAX)
            for p, kd, v in walk(w):
                if kd == "float" and type(v) is SymFloat and "tau" in plan.cands.get(p, []):
                    for x in rd:
                        if c.implied(x.r == v.r):
                            tau = x
            g = g.copy(k=sim(ii(g0.k) + 1), S=sim(ii(g0.S) + ii(E.n)), tau=tau)
        s.check_locations(g, s.what)
        s.check_facts(plan.facts, g, s.what)
    return run


class Traceback:
    def __getattr__(self, n):
        raise Unsupported(f"traceback.{n}")


def any_exception():
    t = shims.AnyExc()
    return t, shims.AnyExcValue(t), Traceback()


WAYS = ("close()", "leaving the with-block", "leaving the with-block by an exception")


def finalise(s, w, way):
    if way == 0:
        return C.attempt(w.close)
    if way == 1:
        return C.attempt(w.__exit__, None, None, None)
    t, v, tb = any_exception()
    return C.attempt(w.__exit__, t, v, tb)


def drv_close(way):
    def run(c):
        s = c.session
        s.expect = None
        w = s.begin(WAYS[way])
        some = c.branch(ii(s.g.k) > 0)
        r, e = finalise(s, w, way)
        if e is not None:
            s.refute("no exception escapes", ("stream", "stat", "layout"),
                     f"{type(e).__name__}: {e} [{core._where(e)}]")
            raise PathEnd()
        if way:
            s.prove("no exception is swallowed", r is None or r is False or (
                V.is_sym(r) is False and not r), "final")
        s.left_loops()
        s.prove("the file is closed", s.stream.is_closed, "final")
        g = s.segment_end("the end", closing=True)
        if c.opts.get("skip_goals"):
            return                  # what follows says nothing about the invariant
        content = s.stream.content
        d = C.dec("=FileStatistics", content, 0)
        st = "stat"
        s.prove("the block keeps the file signature", V.rope_eq_goal(
            d["signature"], SymBytes.lit(b"LOGG")), st)
        s.prove("the block states its size", d["statistics_size"] == 144, st)
        s.prove("the block states the number of accepted records",
                d["object_count"] == ii(g.k), st)
        s.prove("the block states the exact file length", d["file_size"] == ii(content.n),
                (st, "final"))
        s.prove("the block states the uncompressed size",
                d["uncompressed_file_size"] == 144 + ii(g.S), st)
        s.prove("the block states the compression level in use",
                d["compression_level"] == ii(g.level), st)
        if some:
            t = C.build("SystemTime", {n: V.mkint(x) for n, x in d["last_object_time"].items()})
            for n, x in S.time_goals("time", t, systime_of(g.tau)):
                s.prove(f"the block states the UTC time of the last accepted write ({n})", x, st)
        # again, in any way
        before, log = s.stream.content, len(s.stream.log)
        for turn in range(2):
            again = c.choose([z3.BoolVal(True)] * 2)
            r, e = finalise(s, w, again)
            s.prove(f"{WAYS[again]} again raises nothing",
                    e is None, "final", detail=repr(e))
            if e is not None:
                raise PathEnd()
            if again:
                s.prove("no exception is swallowed", not r, "final")
            s.prove("closing again changes nothing", V.rope_eq_goal(s.stream.content, before)
                    if len(s.stream.log) != log else True, "final")
            s.prove("the file stays closed", s.stream.is_closed, "final")
    return run


def drv_closed():
    """closing again in any way, also when a write was attempted after closing"""
    def run(c):
        s = c.session
        s.expect = None
        w = s.begin("a closed writer")
        _r, e = finalise(s, w, 0)
        if e is not None or not s.stream.is_closed:
            raise PathEnd()                     # see close()
        s.left_loops()
        s.late = True
        for turn in range(2):
            if turn == 0:
                late_write(s, w)
            before, log = s.stream.content, len(s.stream.log)
            way = c.choose([z3.BoolVal(True)] * 3)
            r, e = finalise(s, w, way)
            s.prove(f"{WAYS[way]} again raises nothing", e is None, "final", detail=repr(e))
            if e is not None:
                raise PathEnd()
            s.prove("no exception is swallowed", not r, "final")
            s.prove("closing again changes nothing", V.rope_eq_goal(s.stream.content, before)
                    if len(s.stream.log) != log else True, "final")
            s.prove("the file stays closed", s.stream.is_closed, "final")
    return run


def late_write(s, w):
    """a write attempted after closing: whatever it does, closing again is without effect"""
    E = V.fresh_bytes("late")
    s.c.add(z3.And(ii(E.n) >= 16, ii(E.n) <= BIG))
    s.c.add(fits(s.g.bufsize, ii(E.n) + 8))
    s.seen_enc, s.enc, s.expect = True, None, None
    C.attempt(w.write, make_record(s.c, E, V.mkint(E.n), None))
    s.prove("the file stays closed", s.stream.is_closed, "final")


def drv_enter():
    def run(c):
        s = c.session
        s.expect = None
        w = s.begin("entering the with-block")
        r, e = C.attempt(w.__enter__)
        s.prove("raises nothing", e is None, "final", detail=repr(e))
        s.prove("gives the writer itself", r is w, "final")
        s.prove("the file stays open", not s.stream.is_closed, "final")
        if s.stream.is_closed:
            raise PathEnd()
        s.segment_end("entering")
        s.check_locations(s.g, s.what)
        s.check_facts(s.plan.facts, s.g, s.what)
    return run


OPS = {"init": lambda: drv_init(None), "write": lambda: drv_write(0),
       "misdeclared": lambda: drv_write(1), "unencodable": lambda: drv_write(2),
       "close": lambda: drv_close(0), "exit": lambda: drv_close(1),
       "exit-exc": lambda: drv_close(2), "closed": drv_closed, "enter": drv_enter}
ALL = ("init", "write", "misdeclared", "unencodable", "close", "enter")
ACCEPTED = ("init", "write", "close", "enter")


def find_plan(proved, opts, ops=ALL, rounds=40):
    """weaken the candidate relations until every operation preserves them"""
    plan = Plan()
    opts = dict(opts, cvc5_all=False, skip_goals=True)
    for _ in range(rounds):
        plan.changed = False
        if plan.stale:
            plan.restart()
        for op in ops:
            run_op(op, plan, proved, opts)
            if plan.shape is None:
                return plan
            if plan.stale:
                break
            if plan.changed and op == "init":
                run_op(op, plan, proved, opts)
        if not plan.changed:
            break
    return plan


def run_op(op, plan, proved, opts):
    return core.explore(op, OPS[op](), opts, lambda c: WriterSession(c, proved, plan))


def verify_op(op, plan, proved, opts):
    """the contract of one operation under the invariant found"""
    r = None
    if plan.shape is not None or op == "init":
        plan.changed = False
        r = run_op(op, plan, proved, opts)
        if plan.changed:
            r.unsupported.append(f"the writer's invariant is not inductive: {plan.log[-1]}")
    if plan.shape is None:
        r = r or core.Result(op)
        r.unsupported.append("the writer's state is not understood")
    return r


def bare(name):
    return name.split(": ", 1)[-1]


def differing(r, base):
    """keep the failures of r that base does not have (under the bare name)"""
    old = {bare(o.name) for o in base.obls if o.status != "proved"}
    old |= {"*"} if base.unsupported else set()
    for o in r.obls:
        if o.status != "proved" and bare(o.name) not in old:
            o.tag = "differs"
    return r


def effect_unit(op, full, accepted, proved):
    """the operation behaves as it does when no rejected write is ever attempted"""
    def fn(opts):
        r = verify_op(op, full, proved, opts)
        if any(o.status != "proved" for o in r.obls):
            differing(r, verify_op(op, accepted, proved, dict(opts, cvc5_all=False)))
        for o in r.obls:
            if o.status == "proved":
                o.tag = "differs"
        return r
    return fn


def exit_unit(op, plan, proved):
    """leaving the block does all that close() does"""
    def fn(opts):
        r = verify_op(op, plan, proved, opts)
        if any(o.status != "proved" for o in r.obls):
            differing(r, verify_op("close", plan, proved, dict(opts, cvc5_all=False)))
        for o in r.obls:
            if o.status == "proved" and o.tag != "final":
                o.tag = "differs"
        return r
    return fn


def open_unit(kind, proved):
    def fn(opts):
        return core.explore(f"BlfWriter({kind})", drv_init_path(kind), opts,
                            lambda c: WriterSession(c, proved, Plan()))
    return fn
