"""Contract of the reader: a scanning machine, and the proof that the code steps with it.

The specification is a machine over a byte string S and a position p (and, at file level, the
carry: the unfinished bytes of the container before):

  fewer than 4 bytes left                      stop, S[p:] is unfinished
  S[p:p+4] is not the record signature         skip one byte
  fewer than 16 bytes left                     stop, S[p:] is unfinished
  declared size below 16                       skip one byte (not a record)
  fewer bytes left than the declared size      stop, S[p:] is unfinished
  otherwise                                    deliver S[p:p+size], decoded by its type code,
                                               and continue behind it; at file level a
                                               container delivers what scanning
                                               carry + payload delivers, and the carry
                                               becomes what that scan leaves unfinished

Every loop of the code is cut at its head.  The invariant is `the code stands where the machine
stands`: the stream position (or an index variable) is p, the carry is held by some attribute or
variable, everything else that the loop changes is arbitrary.  A turn of the loop must take the
machine one or more steps further, deliver what those steps deliver, and end in the invariant.
A nested scan of a container's payload is used by its contract and verified separately.
"""
import inspect
import types

import z3

from pyvc import core, shims, state
from pyvc import values as V
from pyvc.core import Poison, PathEnd, Unsupported
from pyvc.values import SymBool, SymByteArray, SymBytes, SymInt, iadd, ii, isub, rope_of, sim, unint
from spec import codec as C
from spec import layout as L

STEPS = 24
AFTER = 3  # turns a loop may take after the last record before it ends
SIG = b"LOBJ"


class Decoded:
    """what cls.unpack(rope) promises: the record of class cls with these bytes"""

    def __init__(self, cls, rope):
        object.__setattr__(self, "vc_cls", cls)
        object.__setattr__(self, "vc_rope", rope)

    @property
    def __vc_pytypes__(self):
        return [self.vc_cls]

    def __getattr__(self, name):
        raise Unsupported(f"use of a delivered record (.{name})")

    def __setattr__(self, name, v):
        raise Unsupported(f"change of a delivered record (.{name})")

    def __repr__(self):
        return "<record>"

    def __bool__(self):
        return True


class NestedGen:
    """contract of the scan of a container's payload: delivers its records, leaves `fin`"""

    def __init__(self, session, rope):
        self.s, self.rope, self.state = session, rope, 0
        self.fin = V.fresh_bytes("unfinished", inp=False)

    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 0:
            self.state = 1
            return NestedTok(self.rope, self.fin)
        if self.state == 1:
            self.state = 2
            for loc in self.s.plan.fin:
                if loc[0] == "attr":
                    setattr(self.s.reader, loc[1], shims._conc(self.fin))
            for a in self.s.plan.inner_mod:
                setattr(self.s.reader, a, havoc_value(getattr(self.s.reader, a, None), a))
            raise StopIteration(shims._conc(self.fin)
                                if ("return",) in self.s.plan.fin else None)
        raise StopIteration

    def close(self):
        pass


class NestedTok(Decoded):
    def __init__(self, rope, fin):
        super().__init__(object, rope)
        object.__setattr__(self, "vc_fin", fin)


class Plan:
    """facts found by weakening (which variables change, where the carry is kept)"""

    def __init__(self):
        self.changed = False
        self.mod_attrs = set()
        self.mod_locals = {}       # loop site -> names
        self.mod_parts = {}        # loop site -> (where a helper object is, its attribute)
        self.carry_drop = set()
        self.fin = None
        self.inner_mod = set()
        self.inner_empty = None    # attributes that are empty when a payload's scan begins
        self.inner_carry = set()   # carry attributes the loop of that scan changes
        self.drivers = set()       # loops that only take records from the scanning generator
        self.callee = None
        self.scanners = set()      # generators over bytes that scan a payload themselves
        self.index = 0
        self.log = []

    def note(self, what):
        self.changed = True
        self.log.append(what)


def fields_of(o, path="", depth=0):
    """the values of an object and of those it consists of"""
    if depth < 6 and state._library(o) and not isinstance(o, type):
        out = {}
        for k, v in vars(o).items():
            out.update(fields_of(v, f"{path}.{k}", depth + 1))
        return out
    return {path: o}


def same_value(a, b):
    if a is b:
        return True
    if V.is_sym(a) or V.is_sym(b):
        return unchanged(a, b)
    return type(a) is type(b) and a == b


def havoc_value(v, name):
    u = unint(v)
    if isinstance(v, bool) or type(v) is SymBool:
        return SymBool(z3.Bool(core.ctx().fresh(name)))
    if u is not None:
        return V.fresh_int(name, inp=False)
    if type(v) is SymByteArray or isinstance(v, bytearray):
        return SymByteArray(V.fresh_bytes(name, inp=False))
    if rope_of(v) is not None:
        return V.fresh_bytes(name, inp=False)
    return Poison(f"loop-changed {name}")


def unchanged(a, b):
    if a is b:
        return True
    c = core.ctx()
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    ua, ub = unint(a), unint(b)
    if ua is not None and ub is not None:
        return c.implied(ii(ua) == ii(ub))
    ra, rb = rope_of(a), rope_of(b)
    if ra is not None and rb is not None:
        g = V.rope_eq_goal(ra, rb)
        return g if isinstance(g, bool) else c.implied(g)
    return False


def classify(c, S, p):
    """one step of the scanning machine over S at p: (stop | skip | record, size)"""
    def br(f):
        return c.branch(z3.simplify(f) if not isinstance(f, bool) else f)
    left = isub(S.n, p)
    if br(ii(left) < 4):
        return "stop", None
    if not br(z3.And(*[S.at(iadd(p, j)) == b for j, b in enumerate(SIG)])):
        return "skip", None
    if br(ii(left) < 16):
        return "stop", None
    size = sim(ii(unint(V.le_to_int([S.at(iadd(p, 8 + j)) for j in range(4)]))))
    if br(ii(size) < 16):
        return "skip", None
    if br(ii(left) < ii(size)):
        return "stop", None
    return "record", size


class ReaderSession(C.CodecSession):
    def __init__(self, c, proved, plan):
        super().__init__(c, [p for p in proved])
        self.plan = plan
        self.mode = None
        self.roots = set()
        self.emitted = []
        self.find_facts = []
        c.on_find = self.on_find
        self.index_mode = None
        self.loops = []
        self.box = {}
        self.gens = {}
        self.by_bytes = False

    # ---- set-up
    def begin(self, mode, reader, stream, S, p0, what):
        self.mode, self.reader, self.stream, self.S, self.what = mode, reader, stream, S, what
        self.p = p0
        self.carry = SymBytes([])
        self.carry_attrs = [k for k, v in vars(reader).items() if rope_of(v) is not None
                            and rope_of(v).n == 0 and k not in self.plan.carry_drop]
        if self.plan.fin is None:
            self.plan.fin = {("attr", k) for k in self.carry_attrs} | {("return",)}
        install_decoders(self)
        self.stats0 = fields_of(reader.file_statistics)

    def keeps_statistics(self):
        """the frame of reading: every statistics field is still the value stored in the file"""
        now = fields_of(getattr(self.reader, "file_statistics", None))
        g = now.keys() == self.stats0.keys()
        if g:
            g = all(same_value(v, now[k]) for k, v in self.stats0.items())
        self.prove("the statistics stay as they are", g, "stat")

    def prove(self, name, goal, tag="frame", detail=None):
        return self.c.prove(f"{self.what}: {name}", goal, tag, detail=detail)

    def refute(self, name, tag, detail):
        """an obligation that is false on this path: unsatisfiable only if the path is"""
        g = z3.Bool(self.c.fresh("unreachable"))
        self.c.add(z3.Not(g))
        return self.prove(name, g, tag, detail)

    # ---- calls
    def intercept(self, f, a, k):
        fn = getattr(f, "__func__", f)
        if isinstance(fn, types.FunctionType) and inspect.isgeneratorfunction(fn) \
                and fn.__globals__.get("__vc_own__"):
            if self.mode is None:
                self.roots.add(fn)
            else:
                args = list(a)
                mem = [j for j, x in enumerate(args)
                       if type(x) is shims.SymStream and x.kind == "mem"
                       and x is not self.stream]
                byt = [j for j, x in enumerate(args) if rope_of(x) is not None]
                if byt and not mem:
                    self.gens[fn.__code__] = fn
                if (mem or (byt and (fn in self.roots or fn in self.plan.scanners))) \
                        and self.driving is False:
                    return (self.nested(f, fn, args, k, (mem or byt)[0], bool(mem)),)
        return super().intercept(f, a, k)

    driving = False

    def nested(self, f, fn, args, k, j, is_mem):
        if k:
            raise Unsupported("nested scan with keyword arguments")
        me = getattr(f, "__self__", None)
        if me is not None and me is not self.reader:
            raise Unsupported("nested scan on another object")
        for i, x in enumerate(args):
            if i != j and V.is_sym(x):
                raise Unsupported("nested scan with symbolic arguments")
        st = args[j]
        if is_mem:
            if not self.c.implied(ii(st.pos) == 0):
                raise Unsupported("nested scan not from the start of its stream")
            rope = st.content
        else:
            rope = rope_of(st)
        callee = (fn, me is not None, tuple((None if i == j else x) for i, x in
                                            enumerate(args)), j, is_mem)
        if self.plan.callee is None:
            self.plan.callee = callee
        elif self.plan.callee[0] is not fn or self.plan.callee[3:] != callee[3:]:
            raise Unsupported("two kinds of nested scans")
        if self.mode == "inner":
            self.at_container()
        empty = {a for a in self.carry_attrs if self.c.implied(
            ii(rope_of(getattr(self.reader, a)).n) == 0)}
        was = self.plan.inner_empty
        self.plan.inner_empty = empty if was is None else was & empty
        if was is not None and was != self.plan.inner_empty:
            self.plan.note(f"{was - empty} hold something when a payload's scan begins")
        self.contracts_used.add(f"{fn.__module__}.{fn.__qualname__} (nested scan)")
        return NestedGen(self, rope)

    def at_container(self, rope=None):
        """containers do not nest: a container inside a container is outside the property"""
        if rope is not None and (not isinstance(rope.n, int) or rope.n >= 16):
            code = V.le_to_int([rope.at(12 + k) for k in range(4)])
            self.prove("only a container is opened", ii(unint(code)) == 10)
            raise PathEnd()
        for _ in range(STEPS):
            r = self.step(peek=True)
            if r == "record":
                self.prove("only a container is opened", self.rec_code == 10)
                raise PathEnd()
            if r == "stop":
                break
        self.prove("only a container is opened", False)
        raise PathEnd()

    def on_find(self, r, pat, s, k):
        segs, S = r.segs, self.S.segs if self.mode else []
        if len(segs) == 1 and len(S) == 1 and isinstance(segs[0], V.Arr) \
                and isinstance(S[0], V.Arr) and segs[0].a.get_id() == S[0].a.get_id():
            if not self.c.implied(ii(iadd(segs[0].s, segs[0].n)) == ii(iadd(S[0].s, S[0].n))):
                return
            if all(isinstance(x, V.Lit) for x in pat.segs) and b"".join(
                    x.b for x in pat.segs) == SIG:
                d = isub(segs[0].s, S[0].s)
                self.find_facts.append((iadd(s, d), None if k is None else iadd(k, d)))

    # ---- the machine
    def step(self, peek=False):
        c, S, p = self.c, self.S, self.p
        left = isub(S.n, p)

        def br(f):
            return c.branch(z3.simplify(f) if not isinstance(f, bool) else f)
        for s, k in self.find_facts:
            if c.implied(ii(s) == ii(p)):
                if k is not None:
                    if c.implied(ii(k) == ii(p)):
                        break
                    self.p = k
                    return "skip"
                if br(ii(left) < 4):
                    return "stop"
                self.p = isub(S.n, 3)
                return "skip"
        kind, size = classify(c, S, p)
        if kind == "stop":
            return kind
        if kind == "skip":
            self.p = iadd(p, 1)
            return kind
        self.rec = S.slice_terms(p, size)
        self.rec_code = ii(unint(V.le_to_int([S.at(iadd(p, 12 + j)) for j in range(4)])))
        if peek:
            return "record"
        if self.mode == "inner":
            c.assume(self.rec_code != 10)
        self.deliver(self.rec, self.rec_code)
        self.p = iadd(p, size)
        return "record"

    def deliver(self, rec, code):
        c = self.c
        if self.mode == "outer" and c.branch(code == 10):
            c.assume(ii(rec.n) >= 32)
            data = rec.slice_terms(32, isub(rec.n, 32))
            if c.branch(self.S.at(13) > 0):
                data = rope_of(shims.z_decompress(data))
            want = SymBytes.of(self.carry.segs + data.segs)
            if not self.emitted:
                self.prove("a container's records are delivered", False)
                raise PathEnd()
            t = self.emitted.pop(0)
            if type(t) is not NestedTok:
                self.prove("a container is opened in place", False)
                raise PathEnd()
            self.prove("a container's records are those of the carry and its payload",
                       V.rope_eq_goal(t.vc_rope, want))
            self.carry = t.vc_fin
            return
        if not self.emitted:
            self.prove("every record is delivered", False)
            raise PathEnd()
        t = self.emitted.pop(0)
        if type(t) is not Decoded:
            self.prove("a record is delivered as itself", False, detail=repr(t)[:80])
            raise PathEnd()
        name = t.vc_cls.__name__
        same = V.rope_eq_goal(t.vc_rope, rec)
        self.prove("the delivered record has exactly the record's bytes", same)
        if name == "NotImplementedObject":
            self.prove("an opaque record has exactly the record's bytes", same, "dispatch")
        real = C.klass(name) is t.vc_cls if name in L.RECORDS or name == "NotImplementedObject" \
            else False
        if not real:
            g = False
        elif name == "NotImplementedObject":
            g = z3.And(*[code != k for k in L.CODE_TO_CLASS], code != 10)
        else:
            ks = [k for k, n in L.CODE_TO_CLASS.items() if n == name]
            g = z3.Or(*[code == k for k in ks]) if ks else False
        self.prove(f"type codes decoded as {name}", g, "dispatch")

    # ---- meeting points
    def position(self, loc):
        if self.index_mode is not None:
            name, off = self.index_mode
            if isinstance(name, tuple):
                h = self.helpers(loc).get(name[0])
                u = unint(getattr(h, name[1], None))
            else:
                u = unint(loc.get(name))
            if u is None:
                raise Unsupported("position variable is not an integer")
            return isub(u, off)
        return self.stream.pos

    def helpers(self, loc):
        """objects of the library's own helper classes, held by a local or by the reader"""
        out = {}
        for where, names in (("local", loc), ("attr", vars(self.reader))):
            for k, v in names.items():
                if "__vc_" not in k and state._library(v) and not isinstance(v, type) \
                        and type(v) not in (Decoded, NestedTok) and v is not self.reader \
                        and isinstance(vars(v), dict) and k != "file_statistics" \
                        and type(v).__module__.startswith("vblf") \
                        and not hasattr(type(v), "unpack") \
                        and all(v is not x for x in out.values()):
                    out[(where, k)] = v
        return out

    def sync(self, where, loc, may_stop=False):
        """step until the machine stands where the code does; True if it stops before that"""
        pos = self.position(loc)
        for _ in range(STEPS):
            if not self.emitted:
                d = isub(self.p, pos)
                if isinstance(d, int):
                    if d == 0:
                        return False
                elif self.c.branch(ii(self.p) == ii(pos)):
                    return False
            if self.step() == "stop":
                if may_stop and not self.emitted:
                    return True
                break
        if self.index_mode is not None and self.index_left > 0:
            self.plan.index += 1
            self.plan.note(f"{self.index_mode[0]} is not the position")
            raise PathEnd()
        self.prove("after each turn the scanner stands where the specification does", False,
                   detail=where)
        raise PathEnd()

    def carries(self, loc):
        return [(("attr", a), getattr(self.reader, a, None)) for a in self.carry_attrs]

    def loop_rule(self, loop):
        if self.mode is None:
            return None
        if loop.is_for and type(loop.iterable) is not shims.CallIter:
            return NestedFor(self) if type(loop.iterator) is NestedGen else None
        if loop.where in self.plan.drivers:
            return DriverLoop(self)
        return WhileRule(self, loop)

    def finish(self, retval):
        """the generator ended"""
        self.keeps_statistics()
        for _ in range(STEPS):
            r = self.step()
            if r == "stop":
                break
        else:
            self.prove("reading ends only at the end", False)
            raise PathEnd()
        self.prove("nothing is delivered beyond the records", not self.emitted)
        if self.mode == "inner":
            rest = self.S.slice_terms(self.p, isub(self.S.n, self.p))
            ok = []
            for loc in sorted(self.plan.fin):
                v = getattr(self.reader, loc[1], None) if loc[0] == "attr" else retval
                r = rope_of(v)
                g = False if r is None else V.rope_eq_goal(r, rest)
                good = g if isinstance(g, bool) else self.c.implied(g)
                if not good and len(self.plan.fin) > 1:
                    self.plan.fin.discard(loc)
                    self.plan.note(f"unfinished bytes are not left in {loc}")
                    raise PathEnd()
                ok.append((loc, g))
            for loc, g in ok:
                self.prove(f"unfinished bytes are left in {'.'.join(loc)}", g)
            for a, v in vars(self.reader).items():
                if ("attr", a) in self.plan.fin or a in self.plan.inner_mod:
                    continue
                if not unchanged(self.attrs0.get(a), v):
                    self.plan.inner_mod.add(a)
                    self.plan.note(f"nested scan changes {a}")


class NestedFor:
    """for x in <nested scan>: the body may only hand x on"""

    def __init__(self, s):
        self.s = s
        self.n = 0

    def head(self, loop, loc):
        self.n += 1
        if self.n == 1:
            self.a0 = dict(vars(self.s.reader))
            self.l0 = {k: loc.get(k) for k in loop.names}
        elif self.n == 2:
            for a, v in vars(self.s.reader).items():
                if ("attr", a) in self.s.plan.fin or a in self.s.plan.inner_mod:
                    continue
                if not unchanged(self.a0.get(a), v):
                    raise Unsupported(f"per-record change of {a}")
            for k in loop.names:
                if isinstance(loc.get(k), Decoded):
                    continue
                if not unchanged(self.l0.get(k), loc.get(k)):
                    raise Unsupported(f"per-record change of {k}")
        return None

    def exit(self, loop):
        pass


class DriverLoop:
    """a loop that takes records from the scanning generator and hands them on: executed as it
    is (the generator's own loop is the one that is cut), it must not remember anything"""

    def __init__(self, s):
        self.s = s
        self.n = 0

    def head(self, loop, loc):
        self.n += 1
        if self.n > 1:
            for k in loop.names:
                if k in self.loc and not isinstance(loc.get(k), Decoded) and \
                        not unchanged(self.loc[k], loc.get(k)):
                    raise Unsupported(f"{k} carries state from record to record at {loop.where}")
            self.hidden.check(f"at {loop.where}", unchanged)
        else:
            self.loc = {k: loc[k] for k in loop.names if k in loc}
            self.hidden = state.Snapshot(
                [(k, v) for k, v in loc.items() if k not in self.loc
                 and type(v) is not types.GeneratorType],
                [id(self.s.reader), id(self.s.stream)])
        return None

    def exit(self, loop):
        pass


class WhileRule:
    def __init__(self, s, loop):
        self.s, self.loop = s, loop
        self.n = self.after = 0

    def head(self, loop, loc):
        self.n += 1
        return self.enter(loop, loc) if self.n == 1 else self.back(loop, loc)

    def enter(self, loop, loc):
        s, c, plan = self.s, self.s.c, self.s.plan
        fn = s.gens.get(loop.frame.f_code)
        if fn is not None and s.mode == "outer" and fn not in s.roots:
            plan.scanners.add(fn)
            plan.note(f"{fn.__name__} scans")
            raise PathEnd()
        if s.loops and loop.frame.f_code.co_flags & 0x20 \
                and s.loops[-1].loop.frame is not loop.frame:
            # one of the two takes records from the other's generator: the one around it, or
            # this one when the other is waiting to be resumed
            if s.loops[-1].loop.frame.f_code is loop.frame.f_code:
                raise Unsupported(f"a second scan at {loop.where} while one is pending")
            f, around = loop.frame.f_back, False
            while f is not None and not around:
                around, f = f is s.loops[-1].loop.frame, f.f_back
            at = s.loops[-1].loop.where if around else loop.where
            plan.drivers.add(at)
            plan.note(f"{at} only takes records from a generator")
            raise PathEnd()
        if s.index_mode is None and (s.by_bytes or not s.c.implied(
                ii(s.stream.pos) == ii(s.p))) and not s.emitted and not s.loops:
            # not at the stream position: some integer variable is the position
            cand = [k for k in loop.names if isinstance(loc.get(k), int)
                    and not isinstance(loc.get(k), bool) and isinstance(s.p, int)]
            cand = [(k, loc[k]) for k in cand]
            if isinstance(s.p, int):
                cand += [((w, a), v) for w, h in s.helpers(loc).items()
                         for a, v in vars(h).items()
                         if isinstance(v, int) and not isinstance(v, bool)]
            if cand:
                k = cand[min(plan.index, len(cand) - 1)]
                s.index_mode = (k[0], k[1] - s.p)
                s.index_stream = s.stream.pos
                s.index_left = len(cand) - 1 - plan.index
        s.sync(f"entering {loop.where}", loc)
        s.loops.append(self)
        self.attrs = dict(vars(s.reader))
        p = z3.Int(c.fresh("p"))
        c.add(z3.And(p >= ii(s.p), p <= ii(s.S.n)))
        s.p = self.p = p
        out = {}
        site = loop.where
        mod = plan.mod_locals.setdefault(site, set())
        if s.mode == "outer":
            s.carry = V.fresh_bytes("carry", inp=False)
        for a in s.carry_attrs:
            if s.mode == "inner" and a not in plan.inner_carry:
                continue
            v = s.carry if s.mode == "outer" else V.fresh_bytes(a, inp=False)
            if type(self.attrs[a]) in (SymByteArray, bytearray):
                v = SymByteArray(rope_of(v))
            setattr(s.reader, a, v)
        for a in plan.mod_attrs:
            setattr(s.reader, a, havoc_value(self.attrs.get(a), a))
        self.carry_locals = []
        for k in loop.names:
            if k not in loc:
                out[k] = core.UNBOUND
                continue
            v = loc[k]
            if s.index_mode is not None and k == s.index_mode[0]:
                out[k] = V.mkint(iadd(p, s.index_mode[1]))
                continue
            r = rope_of(v)
            if s.mode == "outer" and r is not None and ("local", site, k) not in plan.carry_drop \
                    and k in mod:
                self.carry_locals.append(k)
                out[k] = SymByteArray(s.carry) if type(v) in (SymByteArray, bytearray) \
                    else s.carry
                continue
            out[k] = havoc_value(v, k) if k in mod else v
        if s.index_mode is None:
            s.stream.pos = p
        self.helpers = s.helpers(loc)
        parts = plan.mod_parts.setdefault(site, set())
        for w, h in self.helpers.items():
            for a, v in list(vars(h).items()):
                if s.index_mode is not None and (w, a) == s.index_mode[0]:
                    setattr(h, a, V.mkint(iadd(p, s.index_mode[1])))
                elif (w, a) in parts:
                    setattr(h, a, havoc_value(v, a))
        self.head_parts = {w: dict(vars(h)) for w, h in self.helpers.items()}
        self.head_attrs = dict(vars(s.reader))
        self.head_locals = dict(out)
        s.find_facts = []
        managed = [id(s.reader), id(s.stream)]
        managed += [id(getattr(s.reader, a, None)) for a in s.carry_attrs]
        managed += [id(out[k]) for k in self.carry_locals]
        managed += [id(h) for h in self.helpers.values()]
        self.outer = state.Outer(loop.frame)
        self.hidden = state.Snapshot(
            [*((k, v) for k, v in loc.items() if k not in out), *out.items(),
             *self.outer.locals(),
             *((f"{w[1]}.{a}", v) for w, d in self.head_parts.items() for a, v in d.items()),
             *((f"self.{k}", v) for k, v in vars(s.reader).items()
               if type(v) is not types.GeneratorType)], managed)
        return out

    def back(self, loop, loc):
        s, c, plan = self.s, self.s.c, self.s.plan
        s.keeps_statistics()
        stopped = s.sync(f"at {loop.where}", loc, self.after < AFTER)
        if not stopped and self.after < AFTER and c.implied(ii(s.p) == ii(self.p)) \
                and classify(c, s.S, s.p)[0] == "stop":
            stopped = True
        if stopped:
            # the specification has ended: no cut here, the code itself has to leave the loop
            self.after += 1
            return None
        s.prove("every turn makes progress", ii(s.p) > ii(self.p), "frame")
        s.prove("the position stays within the data", ii(s.p) <= ii(s.S.n), "frame")
        site = loop.where
        # the carry
        if s.mode == "outer":
            places = [(("attr", a), getattr(s.reader, a, None)) for a in s.carry_attrs]
            places += [(("local", site, k), loc.get(k)) for k in self.carry_locals]
            good, bad = [], []
            for w, v in places:
                r = rope_of(v)
                g = False if r is None else V.rope_eq_goal(r, s.carry)
                ok = g if isinstance(g, bool) else c.implied(g)
                (good if ok else bad).append((w, g))
            for w, g in bad:
                if w[0] == "local" or len(s.carry_attrs) > 1:
                    plan.carry_drop.add(w[1] if w[0] == "attr" else w)
                    plan.note(f"{w} does not hold the carry")
                else:
                    s.prove(f"unfinished bytes are carried over in {w[-1]}", g)
            for w, g in good:
                s.prove(f"unfinished bytes are carried over in {w[-1]}", g)
        for a, v in vars(s.reader).items():
            if a in s.carry_attrs and s.mode == "inner" and a not in plan.inner_carry and \
                    not unchanged(self.head_attrs[a], v):
                plan.inner_carry.add(a)
                plan.note(f"the loop of a payload's scan changes {a}")
            if a in s.carry_attrs or a in plan.mod_attrs:
                continue
            if a not in self.head_attrs or not unchanged(self.head_attrs[a], v):
                if a == "file_statistics":
                    raise Unsupported("file_statistics is replaced while reading")
                plan.mod_attrs.add(a)
                plan.note(f"{a} changes")
        mod = plan.mod_locals[site]
        for k in loop.names:
            if k in mod or k not in loc or k not in self.head_locals \
                    or self.head_locals[k] is core.UNBOUND \
                    or (s.index_mode and k == s.index_mode[0]):
                continue
            if not unchanged(self.head_locals[k], loc[k]):
                mod.add(k)
                plan.note(f"{k} changes at {site}")
        for w, h in self.helpers.items():
            was, now = self.head_parts[w], dict(vars(h))
            for a in {*was, *now}:
                if (w, a) in plan.mod_parts[site] or \
                        s.index_mode and (w, a) == s.index_mode[0]:
                    continue
                if a not in was or a not in now:
                    raise Unsupported(f"{w[1]}.{a} appears or disappears at {site}")
                if not unchanged(was[a], now[a]):
                    plan.mod_parts[site].add((w, a))
                    plan.note(f"{w[1]}.{a} changes at {site}")
        self.outer.check(unchanged)
        self.hidden.check(f"at {site}", unchanged)
        if s.index_mode is not None:
            s.prove("the stream is not moved", ii(s.stream.pos) == ii(s.index_stream), "frame")
        raise PathEnd()

    def exit(self, loop):
        self.s.loops.remove(self)


# ----------------------------------------------------------------- record decoders
def install_decoders(s):
    """unpack of each record class by its contract (C01, C03): it presents these bytes"""
    def stub_for(cls, orig):
        def stub(me, *a, **k):
            b = a[0] if a else k.get("buffer")
            r = rope_of(b)
            if r is None or len(a) + len(k) != 1 or not isinstance(me, type):
                raise Unsupported("unpack of something else than bytes")
            return Decoded(me, r)
        return stub

    names = [*L.RECORDS, "NotImplementedObject"]
    for n in names:
        if n == "LogContainer":
            continue
        f = C.method(C.klass(n), "unpack")
        if f is not None:
            s.stubs[f] = stub_for(C.klass(n), f)
    LC = C.klass("LogContainer")
    orig = C.method(LC, "unpack")

    def container(me, *a, **k):
        r = rope_of(a[0] if a else k.get("buffer"))
        if r is None:
            raise Unsupported("unpack of something else than bytes")
        if me is not LC:
            return Decoded(me, r)
        if s.mode == "inner":
            s.at_container(r)
        s.c.assume(ii(r.n) >= 32)
        s.stubs.pop(orig, None)
        try:
            return me.unpack(*a, **k)
        finally:
            s.stubs[orig] = container
    s.stubs[orig] = container


# ----------------------------------------------------------------- drivers
END = object()


def pull(c, s, what, f, *a):
    """one item, or END"""
    try:
        v = shims.vc_call(f, *a)
    except StopIteration as e:
        return END, e.value
    except Exception as e:  # noqa: BLE001
        C.code_raised(e)
        d = f"{type(e).__name__}: {e} [{core._where(e)}]"
        try:
            if not s.emitted and s.step(peek=True) == "record":
                s.refute("a complete record of any type is decoded", "dispatch", d)
        finally:
            s.refute("no exception escapes", "raise", d)
        raise PathEnd() from None
    return v, None


def file_reader(c, kind, what):
    content = V.fresh_bytes("content")
    c.assume(ii(content.n) >= 144)
    c.assume(z3.And(*[content.at(k) == b for k, b in enumerate(b"LOGG")]))
    stream = shims.SymStream(content, 0, kind, "rb")
    r = C.call(c, what, "raise", C.mod("reader").BlfReader, stream)
    return r, stream, content


def drv_outer(kind, how):
    """how: 'iter' or 'read'; the item after the first comes the other way"""
    def run(c):
        s = c.session
        what = "reading a file"
        r, stream, content = file_reader(c, kind, what)
        s.begin("outer", r, stream, content, 144, what)
        c.cover(what)
        turn = 0 if how == "iter" else 1
        for _ in range(8):
            if turn % 2 == 0:
                s.driving = True
                it = C.call(c, what, "raise", type(r).__iter__, r)
                s.driving = False
                v, _ret = pull(c, s, what, next, it)
            else:
                v, _ret = pull(c, s, what, r.read_object)
                if v is None:
                    v = END
            turn += 1
            if v is END:
                s.finish(None)
                v, _ = pull(c, s, what, r.read_object)
                s.prove("reading at the end gives None again", v is None)
                s.driving = True
                it = C.call(c, what, "raise", type(r).__iter__, r)
                s.driving = False
                v, _ = pull(c, s, what, next, it)
                s.prove("iterating at the end gives nothing again", v is END)
                return
            s.emitted.append(v)
        raise Unsupported("too many records in one turn")
    return run


def drv_inner():
    def run(c):
        s = c.session
        what = "scanning a container's payload"
        fn, bound, args, j, is_mem = s.plan.callee
        r, _stream, _content = file_reader(c, "file", what)
        S = V.fresh_bytes("payload")
        st = shims.SymStream(S, 0, "mem", "r+b")
        s.begin("inner", r, st, S, 0, what)
        s.by_bytes = not is_mem
        for a in s.carry_attrs:
            if a not in (s.plan.inner_empty or ()):
                setattr(r, a, V.fresh_bytes(a, inp=False))
        for a in s.plan.mod_attrs | s.plan.inner_mod:
            setattr(r, a, havoc_value(getattr(r, a, None), a))
        s.attrs0 = dict(vars(r))
        c.cover(what)
        av = list(args)
        av[j] = st if is_mem else S
        s.driving = True
        g = C.call(c, what, "raise", types.MethodType(fn, r) if bound else fn, *av)
        s.driving = False
        for _ in range(8):
            v, ret = pull(c, s, what, next, g)
            if v is END:
                s.finish(ret)
                return
            s.emitted.append(v)
        raise Unsupported("too many records in one turn")
    return run


def reader_unit(kind, how, proved):
    """file-level scan and payload scan, weakened until inductive"""
    def fn(opts):
        plan = Plan()
        for _ in range(14):
            plan.changed = False
            s = lambda c: ReaderSession(c, proved, plan)  # noqa: E731
            out = core.explore("reading a file", drv_outer(kind, how), opts, s)
            if plan.changed:
                continue
            if plan.callee is None:
                return out
            inn = core.explore("scanning a payload", drv_inner(), opts, s)
            if plan.changed:
                continue
            merge(out, inn)
            return out
        out.unsupported.append(f"no inductive invariant found: {plan.log[-3:]}")
        return out
    return fn


def merge(a, b):
    a.obls += b.obls
    a.paths += b.paths
    a.unsupported += b.unsupported
    a.solver_s += b.solver_s
    a.queries += b.queries
    a.wall += b.wall
    a.covers.update(b.covers)
    a.functions |= b.functions
    a.contracts_used |= b.contracts_used
