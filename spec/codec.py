"""Contracts of the codecs: embedded structures, record classes, file statistics.

The functions verified are the ones in /repo; the contracts are stated over spec.layout.
"""
import enum

import z3

from pyvc import core, loader, shims
from pyvc import values as V
from pyvc.core import PathEnd, Unsupported
from pyvc.values import (Arr, Fill, Lit, SymBool, SymByteArray, SymBytes, SymF64, SymInt, SymStr,
                         iadd, ii, isub, rope_of, sim, unint)
from spec import layout as L


# ----------------------------------------------------------------- library access
def mod(name):
    return loader.library().modules["vblf." + name]


def klass(name):
    if name in L.STRUCTS:
        return getattr(mod(L.STRUCTS[name][0]), name)
    if name in L.RECORDS:
        return getattr(mod(L.RECORDS[name].mod), name)
    if name in L.ENUMS:
        return getattr(mod("constants"), name)
    return getattr(mod("general"), name)


def member(e, u):
    """formula: u is a defined code of enumeration e"""
    vals, flag = L.ENUMS[e]
    if flag:
        return z3.BoolVal(True)
    runs = []
    for v in sorted(vals):
        if runs and v == runs[-1][1] + 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    return z3.Or(*[z3.And(ii(u) >= a, ii(u) <= b) if a != b else ii(u) == a for a, b in runs])


FALLBACK = {"ObjType": 0, "AppId": 0}


# ----------------------------------------------------------------- calling the code
def call(c, what, tag, f, *a, **k):
    """run the code under verification; an exception is a failed obligation"""
    try:
        return shims.vc_call(f, *a, **k)
    except Exception as e:  # noqa: BLE001
        code_raised(e)
        c.prove(f"{what}: no exception escapes", False, tag,
                detail=f"{type(e).__name__}: {e} [{core._where(e)}]")
        raise PathEnd() from None


def code_raised(e):
    """the exception is the code's own"""
    if core.CTX is not None and core.CTX.dead:
        raise core.CTX.unsupported or PathEnd() from None
    if shims.modelling_error(e):
        raise Unsupported(f"{type(e).__name__}: {e} [{core._where(e)}]") from None


def attempt(f, *a, **k):
    """(value, None) or (None, exception)"""
    try:
        return shims.vc_call(f, *a, **k), None
    except Exception as e:  # noqa: BLE001
        code_raised(e)
        return None, e


# ----------------------------------------------------------------- decoding by the layout
def dec(t, r, off):
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return {n: dec(ty, r, iadd(off, o)) for n, o, ty in L.STRUCTS[x][2]}
    if kind in ("int", "enum", "sint"):
        s = r.slice_terms(off, w)
        v = V.le_to_int([s.at(k) for k in range(w)], kind == "sint")
        return ii(unint(v))
    if kind in ("list", "tuple"):
        return [dec(f"u{w}", r, iadd(off, w * k)) for k in range(x)]
    return r.slice_terms(off, w)


def match(path, actual, t, exp, strict=False):
    """obligations (name, formula) stating that `actual` presents the decoded value `exp`"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        if type(actual) is not klass(x):
            return [(path + f" is a {x}", False)]
        out = []
        for n, _o, ty in L.STRUCTS[x][2]:
            a = getattr(actual, n, None)
            out += match(f"{path}.{n}", a, ty, exp[n], strict)
        return out
    if kind in ("int", "sint"):
        u = unint(actual)
        return [(path, False if u is None else ii(u) == exp)]
    if kind == "enum":
        u = unint(actual)
        if u is None:
            return [(path, False)]
        E = klass(x)
        cls = actual.cls if type(actual) is SymInt else type(actual)
        d = member(x, exp)
        if x in FALLBACK:
            return [(path, ii(u) == z3.If(d, exp, z3.IntVal(FALLBACK[x]))),
                    (path + f" is a {x}", cls is E)]
        if x == "Compression":
            return [(path, ii(u) == exp),
                    (path + " is a named constant if defined",
                     True if cls is E else z3.Not(d))]
        return [(path, ii(u) == exp), (path + f" is a {x}", cls is E)]
    if kind in ("list", "tuple"):
        want = list if kind == "list" else tuple
        if not isinstance(actual, (list, tuple)) or len(actual) != x or (
                strict and type(actual) is not want):
            return [(path + f" is a {kind} of {x}", False)]
        out = []
        for k in range(x):
            out += match(f"{path}[{k}]", actual[k], f"u{w}", exp[k])
        return out
    if kind == "f8":
        if type(actual) is SymF64:
            return [(path, V.rope_eq_goal(actual.rope(), exp))]
        if isinstance(actual, (int, float)) and not isinstance(actual, bool):
            import struct
            return [(path, V.rope_eq_goal(SymBytes.lit(struct.pack("<d", actual)), exp))]
        return [(path, False)]
    r = rope_of(actual)
    return [(path, False if r is None else V.rope_eq_goal(r, exp))]


def prove_all(c, prefix, goals, tag):
    for n, g in goals:
        c.prove(f"{prefix}: {n}", g, tag)


# ----------------------------------------------------------------- symbolic objects
def fresh_val(name, t, inp=True):
    """a symbolic value of the field's documented range"""
    kind, w, x = L.parse_type(t)
    c = core.ctx()
    if kind == "struct":
        return {n: fresh_val(f"{name}.{n}", ty, inp) for n, _o, ty in L.STRUCTS[x][2]}
    if kind == "int":
        return V.fresh_int(name, 0, (1 << (8 * w)) - 1, inp=inp)
    if kind == "sint":
        return V.fresh_int(name, -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1, inp=inp)
    if kind == "enum":
        v = V.fresh_int(name, 0, (1 << (8 * w)) - 1, cls=klass(x), inp=inp)
        c.add(member(x, v.t))
        return v
    if kind in ("list", "tuple"):
        vs = [fresh_val(f"{name}[{k}]", f"u{w}", inp) for k in range(x)]
        return vs if kind == "list" else tuple(vs)
    if kind == "f8":
        b = V.fresh_bytes(name, 8, inp=False)
        v = SymF64(SymBytes.of([V.Byte(b.at(k)) for k in range(8)]).segs)
        if inp:
            c.inputs[name] = v
        return v
    return V.fresh_bytes(name, w, inp=inp)


def build(sname, vals):
    """an instance of the library's class from spec values"""
    kw = {}
    for n, _o, t in L.STRUCTS[sname][2]:
        kind, _w, x = L.parse_type(t)
        kw[n] = build(x, vals[n]) if kind == "struct" else vals[n]
    return klass(sname)(**kw)


def build_decoded(t, exp):
    """the value the contract of an embedded decoder promises"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        kw = {n: build_decoded(ty, exp[n]) for n, _o, ty in L.STRUCTS[x][2]}
        return klass(x)(**kw)
    if kind in ("int", "sint"):
        return V.mkint(sim(exp))
    if kind == "enum":
        e = sim(exp)
        c = core.ctx()
        d = member(x, e)
        if x in FALLBACK:
            if not c.implied(d):
                e = sim(z3.If(d, ii(e), z3.IntVal(FALLBACK[x])))
            return V.mkint(e, klass(x))
        if x == "Compression":
            return V.mkint(e, klass(x)) if c.branch(d) else V.mkint(e)
        return V.mkint(e, klass(x))
    if kind in ("list", "tuple"):
        vs = [V.mkint(sim(e)) for e in exp]
        return vs if kind == "list" else tuple(vs)
    if kind == "f8":
        return SymF64(SymBytes.of([V.Byte(exp.at(k)) for k in range(8)]).segs)
    return shims._conc(exp)


def enc(t, v):
    """the layout's encoding of a value, as a rope"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        size, fs = L.STRUCTS[x][1], L.STRUCTS[x][2]
        return enc_fields([(n, o, ty) for n, o, ty in fs], v, size)
    if kind in ("int", "enum", "sint"):
        u = unint(v)
        if isinstance(u, int):
            return SymBytes.lit(u.to_bytes(w, "little", signed=kind == "sint"))
        return SymBytes.of([V.Byte(b) for b in V.le_bytes_of(sim(u), w, kind == "sint")])
    if kind in ("list", "tuple"):
        segs = []
        for e in v:
            segs += enc(f"u{w}", e).segs
        return SymBytes.of(segs)
    if kind == "f8":
        if type(v) is SymF64:
            return v.rope()
        import struct
        return SymBytes.lit(struct.pack("<d", v))
    return rope_of(v)


def enc_fields(fs, vals, size):
    segs, pos = [], 0
    for n, o, t in sorted(fs, key=lambda f: f[1]):
        if o > pos:
            segs.append(Lit(bytes(o - pos)))
        r = enc(t, vals[n] if isinstance(vals, dict) else getattr(vals, n))
        segs += r.segs
        pos = o + L.parse_type(t)[1] * (L.parse_type(t)[2] if L.parse_type(t)[0] in (
            "list", "tuple") else 1)
    if size is not None and size > pos:
        segs.append(Lit(bytes(size - pos)))
    return SymBytes.of(segs)


def in_range(t, v):
    """formula: v can be encoded as t and is of the right kind (precondition of encoders)"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        if type(v) is not klass(x):
            return False
        fs = [in_range(ty, getattr(v, n, None)) for n, _o, ty in L.STRUCTS[x][2]]
        if any(f is False for f in fs):
            return False
        fs = [f for f in fs if f is not True]
        return z3.And(*fs) if fs else True
    if kind in ("int", "enum", "sint"):
        u = unint(v)
        if u is None:
            return False
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if kind == "sint" else (
            0, (1 << (8 * w)) - 1)
        if isinstance(u, int):
            return lo <= u <= hi
        return z3.And(u >= lo, u <= hi)
    if kind in ("list", "tuple"):
        if not isinstance(v, (list, tuple)) or len(v) != x:
            return False
        fs = [in_range(f"u{w}", e) for e in v]
        if any(f is False for f in fs):
            return False
        fs = [f for f in fs if f is not True]
        return z3.And(*fs) if fs else True
    if kind == "f8":
        return type(v) is SymF64 or (isinstance(v, float))
    r = rope_of(v)
    if r is None:
        return False
    d = isub(r.n, w)
    return d == 0 if isinstance(d, int) else ii(r.n) == w


# ----------------------------------------------------------------- object comparison
def snapshot(o):
    if V.is_sym(o):
        return SymBytes(o.v.segs) if type(o) is SymByteArray else o
    if isinstance(o, (list, tuple)):
        return (type(o), [snapshot(x) for x in o])
    if hasattr(o, "__dict__") and not isinstance(o, (type, enum.Enum)) and not callable(o):
        return (type(o), {k: snapshot(v) for k, v in vars(o).items()})
    return o


def same(path, a, b):
    """obligations stating that snapshots a and b are equal in every field"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 \
            and isinstance(a[0], type) and isinstance(b[0], type):
        if a[0] is not b[0]:
            return [(f"{path} keeps its type", False)]
        if isinstance(a[1], list):
            if len(a[1]) != len(b[1]):
                return [(f"{path} keeps its length", False)]
            out = []
            for k, (x, y) in enumerate(zip(a[1], b[1])):
                out += same(f"{path}[{k}]", x, y)
            return out
        if set(a[1]) != set(b[1]):
            return [(f"{path} keeps its attributes", False)]
        out = []
        for k in a[1]:
            out += same(f"{path}.{k}", a[1][k], b[1][k])
        return out
    ua, ub = unint(a), unint(b)
    if ua is not None and ub is not None:
        if isinstance(ua, int) and isinstance(ub, int):
            return [(path, ua == ub)]
        return [(path, ii(ua) == ii(ub))]
    ra, rb = rope_of(a), rope_of(b)
    if ra is not None and rb is not None:
        return [(path, V.rope_eq_goal(ra, rb))]
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            return [(path, a == b)]
        s, o = (a, b) if type(a) is SymStr else (b, a)
        if type(o) is SymStr:
            if o.codec != s.codec:
                # equal only if both empty, as far as the verifier knows
                return [(path, z3.And(ii(s.rope.n) == 0, ii(o.rope.n) == 0))]
            return [(path, V.rope_eq_goal(s.rope, o.rope))]
        try:
            return [(path, V.rope_eq_goal(s.rope, SymBytes.lit(o.encode(s.codec))))]
        except UnicodeEncodeError:
            return [(path, False)]
    fa, fb = f8rope(a), f8rope(b)
    if fa is not None and fb is not None:
        return [(path, V.rope_eq_goal(fa, fb))]
    if V.is_sym(a) or V.is_sym(b):
        return [(path, False)]
    try:
        return [(path, bool(type(a) is type(b) and a == b))]
    except Exception:  # noqa: BLE001
        return [(path, a is b)]


def f8rope(x):
    import struct
    if type(x) is SymF64:
        return x.rope()
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return SymBytes.lit(struct.pack("<d", x))
    return None


# ----------------------------------------------------------------- embedded structures
class CodecSession(shims.Session):
    def __init__(self, c, proved=()):
        super().__init__(c)
        install_stubs(self, proved)


def method(cls, name):
    f = None
    for b in cls.__mro__:
        if name in b.__dict__:
            f = b.__dict__[name]
            break
    f = getattr(f, "__func__", f)
    return f


def _split(a, k, names):
    d = dict(zip(names, a))
    d.update(k)
    return d


def install_stubs(session, proved):
    """use the proved contract of an embedded codec instead of its body at call sites"""
    for sname, meth in proved:
        f = method(klass(sname), meth)
        if f is None:
            continue
        session.stubs[f] = make_stub(session, sname, meth, f)


def make_stub(session, sname, meth, orig):
    size = L.STRUCTS[sname][1]
    cls = klass(sname)
    key = f"vblf.{L.STRUCTS[sname][0]}.{sname}.{meth}"

    def inline(me, a, k):
        session.stubs.pop(orig, None)
        try:
            return getattr(me, meth)(*a, **k)
        finally:
            session.stubs[orig] = stub

    def stub(me, *a, **k):
        c = core.ctx()
        if meth in ("unpack", "unpack_from"):
            d = _split(a, k, ["buffer", "offset"])
            r = rope_of(d.get("buffer"))
            off = unint(d.get("offset", 0))
            if me is not cls or r is None or off is None or set(d) - {"buffer", "offset"}:
                return inline(me, a, k)
            pre = (ii(r.n) == size) if meth == "unpack" else z3.And(
                ii(off) >= 0, ii(off) + size <= ii(r.n))
            if not c.implied(pre):
                return inline(me, a, k)
            session.contracts_used.add(key)
            return build_decoded("=" + sname, dec("=" + sname, r, sim(off)))
        if type(me) is not cls:
            return inline(me, a, k)
        rng = in_range("=" + sname, me)
        if rng is False or not c.implied(rng):
            return inline(me, a, k)
        e = enc("=" + sname, as_vals(sname, me))
        if meth == "pack":
            session.contracts_used.add(key)
            return shims._conc(e)
        d = _split(a, k, ["buffer", "offset"])
        buf, off = d.get("buffer"), unint(d.get("offset"))
        if type(buf) is not SymByteArray or off is None:
            return inline(me, a, k)
        off = sim(off)
        if not c.implied(z3.And(ii(off) >= 0, ii(off) + size <= ii(buf.n))):
            return inline(me, a, k)
        session.contracts_used.add(key)
        buf.splice(off, size, e)
        return None
    return stub


def as_vals(sname, o):
    out = {}
    for n, _o, t in L.STRUCTS[sname][2]:
        kind, _w, x = L.parse_type(t)
        v = getattr(o, n)
        out[n] = as_vals(x, v) if kind == "struct" else v
    return out


def drv_embedded(sname, meth, tag):
    """contract of one codec function of an embedded structure"""
    size = L.STRUCTS[sname][1]
    t = "=" + sname

    def run(c):
        cls = klass(sname)
        what = f"{sname}.{meth}"
        if meth == "unpack":
            b = V.fresh_bytes("buffer", size)
            c.cover(what)
            o = call(c, what, tag, cls.unpack, b)
            prove_all(c, what, match("", o, t, dec(t, b, 0)), tag)
        elif meth == "unpack_from":
            b = V.fresh_bytes("buffer")
            off = V.fresh_int("offset", 0)
            c.assume(off.t + size <= ii(b.n))
            c.cover(what)
            o = call(c, what, tag, cls.unpack_from, b, off)
            prove_all(c, what, match("", o, t, dec(t, b, off.t)), tag)
        elif meth == "pack":
            vals = fresh_val("self", t)
            o = build(sname, vals)
            s0 = snapshot(o)
            c.cover(what)
            r = call(c, what, tag, o.pack)
            rr = rope_of(r)
            if rr is None:
                c.prove(f"{what}: returns bytes", False, tag)
                return
            c.prove(f"{what}: result is the layout's encoding",
                    V.rope_eq_goal(rr, enc(t, vals)), tag)
            prove_all(c, what + " leaves self", same("", s0, snapshot(o)), tag)
        else:
            vals = fresh_val("self", t)
            o = build(sname, vals)
            s0 = snapshot(o)
            b = V.fresh_bytes("buffer")
            off = V.fresh_int("offset", 0)
            c.assume(off.t + size <= ii(b.n))
            buf = SymByteArray(b)
            c.cover(what)
            call(c, what, tag, o.pack_into, buf, off)
            pre = b.slice_terms(0, off.t)
            post = b.slice_terms(off.t + size, isub(b.n, off.t + size))
            e = enc(t, vals)
            r = buf.v
            c.prove(f"{what}: buffer keeps its length", ii(r.n) == ii(b.n), tag)
            mid = r.slice_terms(off.t, size)
            c.prove(f"{what}: own bytes are the layout's encoding", V.rope_eq_goal(mid, e), tag)
            c.prove(f"{what}: bytes before are untouched",
                    V.rope_eq_goal(r.slice_terms(0, off.t), pre), tag)
            c.prove(f"{what}: bytes after are untouched", V.rope_eq_goal(
                r.slice_terms(off.t + size, isub(b.n, off.t + size)), post), tag)
            prove_all(c, what + " leaves self", same("", s0, snapshot(o)), tag)
    return run


ORDER = ["SystemTime", "ObjectHeaderBase", "ObjectHeader", "VarObjectHeader", "LinBusEvent",
         "LinSynchFieldEvent", "LinMessageDescriptor", "LinDatabyteTimestampEvent",
         "FileStatistics"]


def embedded_units():
    for s in ORDER:
        for m in L.CODECS[s]:
            if m:
                yield s, m


def prove_embedded(opts=None, tag="layout", only=None):
    """-> (results by (struct, method), set of proved). Inner structures first, so that outer
    ones are checked against proved contracts of the inner ones."""
    res, proved = {}, []
    for s, m in embedded_units():
        if only is not None and s not in only:
            continue
        r = core.explore(f"{s}.{m}", drv_embedded(s, m, tag), opts,
                         lambda c, p=tuple(proved): CodecSession(c, p))
        res[(s, m)] = r
        if r.ok():
            proved.append((s, m))
    return res, proved


# ----------------------------------------------------------------- records: shapes
def tail_variants(rec):
    t = rec.tail
    if t is None:
        return ["plain"]
    return {"parts": ["parts"], "apptext": ["empty", "text"], "upto": ["fits"],
            "rest": ["rest"], "ext64": ["noext", "ext", "cut"],
            "exterr": ["noext", "ext", "cut"],
            "versions": ["v1", "v2", "v3"]}[t[0]]


def field_of(rec, name):
    for n, o, t in rec.fields:
        if n == name:
            return o, t
    raise KeyError(name)


class Shape:
    """a record of one type and variant: its bytes and the values of its fields"""

    def __init__(self):
        self.rope = None
        self.vals = {}     # field -> decoded value (layout types)
        self.extra = {}    # tail field -> (kind, value)
        self.total = None


def _fill(name, n=None):
    c = core.ctx()
    if n is None:
        n = z3.Int(c.fresh(name))
        c.add(n >= 0)
    return n


def record_bytes(rec, variant, trailing="zero"):
    """all well-formed byte strings of the type/variant, as a symbolic rope plus assumptions.

    trailing: "zero" (zeros where the layout assigns nothing) or "any" (for decoding)"""
    c = core.ctx()
    fixed = V.fresh_bytes("fixed", rec.fixed, inp=False)
    holes = hole_bytes(rec)
    for h in holes:
        c.add(fixed.at(h) == 0)
    vals = {n: dec(t, fixed, o) for n, o, t in L.fields_of(rec)}
    for n, o, t in L.fields_of(rec):
        assume_defined(t, vals[n])
    segs = [fixed.segs]
    extra = {}

    def rest(name, n):
        if trailing == "zero":
            segs.append([Fill(0, n)])
        else:
            segs.append(V.fresh_bytes(name, n, inp=False).segs)

    tail = rec.tail
    slack = True if trailing == "any" else rec.slack
    if tail is None:
        if slack:
            rest("slack", _fill("slack_n"))
    elif tail[0] == "parts":
        for n, codec, lf in tail[1]:
            b = V.fresh_bytes(n, vals[lf], inp=False)
            segs.append(b.segs)
            if codec == "bytes":
                extra[n] = ("bytes", b)
            else:
                extra[n] = (codec, b)
                d = V.decodable(V.canon_codec(codec), b)
                if d is not True:
                    c.add(d)
        if slack:
            rest("slack", _fill("slack_n"))
    elif tail[0] == "apptext":
        _, n, lf = tail
        if variant == "empty":
            c.assume(vals[lf] == 0)
            extra[n] = ("cp1252", SymBytes([]))
        else:
            b = V.fresh_bytes(n, inp=False)
            c.assume(vals[lf] == ii(b.n) + 1)
            d = V.decodable("cp1252", b)
            if d is not True:
                c.add(d)
            segs.append(b.segs)
            segs.append([Lit(b"\0")])
            extra[n] = ("cp1252", b)
        if slack:
            rest("slack", _fill("slack_n"))
    elif tail[0] == "upto":
        _, n, lf = tail
        b = V.fresh_bytes(n, vals[lf], inp=False)
        segs.append(b.segs)
        extra[n] = ("bytes", b)
        if slack:
            rest("slack", _fill("slack_n"))
    elif tail[0] == "rest":
        b = V.fresh_bytes(tail[1], inp=False)
        segs.append(b.segs)
        extra[tail[1]] = ("bytes", b)
    elif tail[0] in ("ext64", "exterr"):
        _, n, of = tail
        b = V.fresh_bytes(n, inp=False)
        segs.append(b.segs)
        extra[n] = ("bytes", b)
        if tail[0] == "exterr":
            c.assume(vals["valid_data_bytes"] == ii(b.n))
        ext = None
        if variant == "noext":
            c.assume(vals[of] == 0)
            if tail[0] == "exterr":
                rest("slack", _fill("slack_n"))
        else:
            if tail[0] == "ext64":
                c.assume(vals[of] == rec.fixed + ii(b.n))
            else:
                gap = _fill("gap_n")
                c.assume(vals[of] == rec.fixed + ii(b.n) + gap)
                rest("gap", gap)
            if variant == "ext":
                ext = V.fresh_bytes("ext", 8, inp=False)
                segs.append(ext.segs)
                rest("slack", _fill("slack_n"))
            else:
                cut = _fill("cut_n")
                c.assume(cut < 8)
                rest("cut", cut)
        for j, en in enumerate(("btr_ext_arb", "btr_ext_data")):
            extra[en] = ("u4", dec("u4", ext, 4 * j) if ext is not None else z3.IntVal(0))
    elif tail[0] == "versions":
        groups = tail[1]
        k = int(variant[1]) - 1
        sizes = [rec.fixed] + [g[0] for g in groups]
        body = V.fresh_bytes("ver", sizes[k] - rec.fixed, inp=False)
        segs.append(body.segs)
        full = SymBytes.of(fixed.segs + body.segs)
        for j, (_sz, fs) in enumerate(groups):
            for n, o, t in fs:
                if j < k:
                    extra[n] = (t, dec(t, full, o))
                else:
                    extra[n] = (t, SymBytes.lit(bytes(8)) if t == "f8" else z3.IntVal(0))
        z = _fill("slack_n")
        if k < len(groups):
            c.assume(z < sizes[k + 1] - sizes[k])
        rest("slack", z)
    s = Shape()
    s.rope = SymBytes.of([x for g in segs for x in g])
    s.vals, s.extra, s.total = vals, extra, s.rope.n
    c.assume(vals["header"]["base"]["object_size"] == ii(s.rope.n))
    c.inputs["record"] = s.rope
    return s


def hole_bytes(rec):
    used = set()
    for _n, o, t in L.fields_of(rec):
        kind, w, x = L.parse_type(t)
        used |= set(range(o, o + w * (x if kind in ("list", "tuple") else 1)))
        if kind == "struct":
            pass
    return [k for k in range(rec.fixed) if k not in used]


def assume_defined(t, exp):
    kind, _w, x = L.parse_type(t)
    c = core.ctx()
    if kind == "struct":
        for n, _o, ty in L.STRUCTS[x][2]:
            assume_defined(ty, exp[n])
    elif kind == "enum" and not L.ENUMS[x][1]:
        c.add(member(x, exp))


def match_extra(path, actual, kind, exp):
    if kind == "bytes":
        r = rope_of(actual)
        return [(path, False if r is None else V.rope_eq_goal(r, exp))]
    if kind in ("u4", "f8"):
        return match(path, actual, kind, exp)
    codec = V.canon_codec(kind)
    if isinstance(actual, str):
        try:
            actual = SymStr(codec, SymBytes.lit(actual.encode(codec)))
        except UnicodeEncodeError:
            return [(path, False)]
    if type(actual) is not SymStr:
        return [(path + " is text", False)]
    if actual.codec != codec:
        return [(path + f" is decoded as {kind}",
                 z3.And(ii(actual.rope.n) == 0, ii(exp.n) == 0))]
    return [(path, V.rope_eq_goal(actual.rope, exp))]


def record_object(rec, variant, loose=False):
    """an object of the type with arbitrary consistent field values (loose: lengths, offsets and
    the declared size need not fit the contents)"""
    c = core.ctx()
    rel = (lambda f: None) if loose else c.assume
    vals = {n: fresh_val(n, t) for n, _o, t in L.fields_of(rec)}
    extra, total = {}, rec.fixed
    V_ = lambda n: ii(unint(vals[n]))  # noqa: E731
    tail = rec.tail

    def slackn():
        n = V.fresh_int("slack", 0)
        return n.t

    if tail is None:
        if rec.slack:
            total = iadd(total, slackn())
    elif tail[0] == "parts":
        for n, codec, lf in tail[1]:
            v = V.fresh_bytes(n) if codec == "bytes" else V.fresh_text(n, codec)
            ln = v.n if codec == "bytes" else v.rope.n
            rel(V_(lf) == ii(ln))
            total = iadd(total, ln)
            extra[n] = v
        if rec.slack:
            total = iadd(total, slackn())
    elif tail[0] == "apptext":
        _, n, lf = tail
        if variant == "empty":
            rel(V_(lf) == 0)
            extra[n] = ""
        else:
            v = V.fresh_text(n, "cp1252")
            rel(V_(lf) == ii(v.rope.n) + 1)
            extra[n] = v
            total = iadd(total, iadd(v.rope.n, 1))
        total = iadd(total, slackn())
    elif tail[0] == "upto":
        _, n, lf = tail
        v = V.fresh_bytes(n)
        rel(V_(lf) == ii(v.n))
        extra[n] = v
        total = iadd(iadd(total, v.n), slackn())
    elif tail[0] == "rest":
        v = V.fresh_bytes(tail[1])
        extra[tail[1]] = v
        total = iadd(total, v.n)
    elif tail[0] in ("ext64", "exterr"):
        _, n, of = tail
        v = V.fresh_bytes(n)
        extra[n] = v
        if tail[0] == "exterr":
            rel(V_("valid_data_bytes") == ii(v.n))
        end = iadd(total, v.n)
        extra["btr_ext_arb"] = extra["btr_ext_data"] = 0
        if variant == "noext":
            rel(V_(of) == 0)
            total = end if tail[0] == "ext64" else iadd(end, slackn())
        else:
            gap = 0 if tail[0] == "ext64" else V.fresh_int("gap", 0).t
            end = iadd(end, gap)
            rel(V_(of) == ii(end))
            if variant == "ext":
                extra["btr_ext_arb"] = fresh_val("btr_ext_arb", "u4")
                extra["btr_ext_data"] = fresh_val("btr_ext_data", "u4")
                total = iadd(iadd(end, 8), slackn())
            else:
                cut = V.fresh_int("cut", 0, 7)
                total = iadd(end, cut.t)
    elif tail[0] == "versions":
        groups = tail[1]
        k = int(variant[1]) - 1
        sizes = [rec.fixed] + [g[0] for g in groups]
        for j, (_sz, fs) in enumerate(groups):
            for n, _o, t in fs:
                extra[n] = fresh_val(n, t) if j < k else 0
        z = V.fresh_int("slack", 0)
        if k < len(groups):
            c.assume(z.t < sizes[k + 1] - sizes[k])
        total = iadd(sizes[k], z.t)
    rel(ii(unint(vals["header"]["base"]["object_size"])) == ii(total))
    kw = {}
    for n, _o, t in L.fields_of(rec):
        kind, _w, x = L.parse_type(t)
        kw[n] = build(x, vals[n]) if kind == "struct" else vals[n]
    kw.update(extra)
    return klass(rec.name)(**kw), vals, extra, total


# ----------------------------------------------------------------- record contracts
def drv_read(rec, variant, tag):
    """unpack presents every field at its layout position"""
    def run(c):
        s = record_bytes(rec, variant, "any")
        what = f"{rec.name}.unpack[{variant}]"
        c.cover(what)
        o = call(c, what, tag, klass(rec.name).unpack, s.rope)
        if type(o) is not klass(rec.name):
            c.prove(f"{what}: returns a {rec.name}", False, tag)
            return
        for n, _o, t in L.fields_of(rec):
            prove_all(c, what, match(n, getattr(o, n, None), t, s.vals[n]), tag)
        for n, (kind, exp) in s.extra.items():
            prove_all(c, what, match_extra(n, getattr(o, n, None), kind, exp), tag)
    return run


def drv_write(rec, variant, tag):
    """pack puts every field at its layout position"""
    def run(c):
        o, vals, extra, total = record_object(rec, variant)
        what = f"{rec.name}.pack[{variant}]"
        c.cover(what)
        r = rope_of(call(c, what, tag, o.pack))
        if r is None:
            c.prove(f"{what}: returns bytes", False, tag)
            return
        c.prove(f"{what}: long enough", ii(r.n) >= rec.fixed, tag)
        fs = enc_fields(L.fields_of(rec), vals, rec.fixed)
        for n, o_, t in L.fields_of(rec):
            kind, w, x = L.parse_type(t)
            w = w * (x if kind in ("list", "tuple") else 1)
            if kind == "struct":
                for n2, o2, t2 in L.STRUCTS[x][2]:
                    w2 = L.parse_type(t2)[1] * (L.parse_type(t2)[2] if L.parse_type(t2)[0] in (
                        "list", "tuple") else 1)
                    c.prove(f"{what}: {n}.{n2} at {o_ + o2}", V.rope_eq_goal(
                        r.slice_terms(o_ + o2, w2), fs.slice_terms(o_ + o2, w2)), tag)
                continue
            c.prove(f"{what}: {n} at {o_}", V.rope_eq_goal(
                r.slice_terms(o_, w), fs.slice_terms(o_, w)), tag)
        pos = rec.fixed
        tail = rec.tail
        if tail is not None and tail[0] in ("parts", "apptext", "upto", "rest", "ext64", "exterr"):
            names = [p[0] for p in tail[1]] if tail[0] == "parts" else [tail[1]]
            for n in names:
                v = extra[n]
                e = rope_of(v) if rope_of(v) is not None else (
                    v.rope if type(v) is SymStr else SymBytes.lit(v.encode()))
                c.prove(f"{what}: room for {n}", ii(r.n) >= ii(iadd(pos, e.n)), tag)
                c.prove(f"{what}: {n} where the length fields say",
                        V.rope_eq_goal(r.slice_terms(pos, e.n), e), tag)
                pos = iadd(pos, e.n)
            if tail[0] == "apptext" and variant == "text":
                c.prove(f"{what}: room for the terminator", ii(r.n) >= ii(iadd(pos, 1)), tag)
                c.prove(f"{what}: text is NUL terminated", r.at(pos) == 0, tag)
            if tail[0] in ("ext64", "exterr") and variant == "ext":
                off = ii(unint(vals[tail[2]]))
                c.prove(f"{what}: room for the extension", ii(r.n) >= off + 8, tag)
                for j, en in enumerate(("btr_ext_arb", "btr_ext_data")):
                    c.prove(f"{what}: {en} at the extension offset", V.rope_eq_goal(
                        r.slice_terms(sim(off + 4 * j), 4), enc("u4", extra[en])), tag)
        if tail is not None and tail[0] == "versions":
            for j, (sz, fs2) in enumerate(tail[1]):
                if j < int(variant[1]) - 1:
                    c.prove(f"{what}: room for version {j + 2}", ii(r.n) >= sz, tag)
                    for n, o_, t in fs2:
                        c.prove(f"{what}: {n} at {o_}", V.rope_eq_goal(
                            r.slice_terms(o_, L.parse_type(t)[1]), enc(t, extra[n])), tag)
    return run


def drv_bytes_roundtrip(rec, variant, tag):
    """pack(unpack(b)) == b for every well-formed b"""
    def run(c):
        s = record_bytes(rec, variant, "zero")
        what = f"{rec.name}[{variant}]"
        c.cover(what)
        o = call(c, f"{what} unpack", tag, klass(rec.name).unpack, s.rope)
        r = rope_of(call(c, f"{what} pack", tag, o.pack))
        if r is None:
            c.prove(f"{what}: pack returns bytes", False, tag)
            return
        c.prove(f"{what}: pack(unpack(b)) has the length of b", ii(r.n) == ii(s.rope.n), tag)
        c.prove(f"{what}: pack(unpack(b)) == b", V.rope_eq_goal(r, s.rope), tag)
    return run


def drv_object_roundtrip(rec, variant, tag):
    """unpack(pack(o)) == o, len == declared size, o unchanged, pack repeatable"""
    def run(c):
        o, vals, extra, total = record_object(rec, variant)
        what = f"{rec.name}[{variant}]"
        s0 = snapshot(o)
        c.cover(what)
        r = call(c, f"{what} pack", tag, o.pack)
        rr = rope_of(r)
        if rr is None:
            c.prove(f"{what}: pack returns bytes", False, tag)
            return
        rr = SymBytes(rr.segs)
        c.prove(f"{what}: len(pack(o)) is the declared size",
                ii(rr.n) == ii(unint(vals["header"]["base"]["object_size"])), tag)
        prove_all(c, f"{what}: pack leaves", same("o", s0, snapshot(o)), tag)
        r2 = rope_of(call(c, f"{what} pack again", tag, o.pack))
        c.prove(f"{what}: packing again gives the same bytes",
                False if r2 is None else V.rope_eq_goal(r2, rr), tag)
        o2 = call(c, f"{what} unpack", tag, klass(rec.name).unpack,
                  r if type(r) is not SymByteArray else rr)
        prove_all(c, f"{what}: unpack(pack(o)) keeps", same("o", s0, snapshot(o2)), tag)
    return run


def drv_pack_keeps(rec, variant, tag):
    """encoding an object whose lengths and declared size need not fit leaves it unchanged"""
    def run(c):
        o, _vals, _extra, _total = record_object(rec, variant, loose=True)
        what = f"{rec.name}[{variant}], any lengths"
        s0 = snapshot(o)
        c.cover(what)
        attempt(o.pack)
        prove_all(c, f"{what}: pack leaves", same("o", s0, snapshot(o)), tag)
    return run


def drv_opaque(tag):
    """records of unknown type: complete original bytes, unchanged"""
    def run(c):
        b = V.fresh_bytes("record")
        c.assume(ii(b.n) >= 16)
        c.cover("NotImplementedObject")
        o = call(c, "NotImplementedObject.unpack", tag, klass("NotImplementedObject").unpack, b)
        prove_all(c, "NotImplementedObject.unpack", match(
            "header.base", getattr(getattr(o, "header", None), "base", None),
            "=ObjectHeaderBase", dec("=ObjectHeaderBase", b, 0)), tag)
        r = rope_of(getattr(o, "buffer", None))
        c.prove("NotImplementedObject.unpack: buffer is the complete record",
                False if r is None else V.rope_eq_goal(r, b), tag)
        s0 = snapshot(o)
        r = rope_of(call(c, "NotImplementedObject.pack", tag, o.pack))
        c.prove("NotImplementedObject: pack(unpack(b)) == b",
                False if r is None else V.rope_eq_goal(r, b), tag)
        prove_all(c, "NotImplementedObject: pack leaves", same("o", s0, snapshot(o)), tag)
    return run


def record_units():
    for n, rec in L.RECORDS.items():
        for v in tail_variants(rec):
            yield n, v
