"""Verifier semantics of the calls the code makes: builtins, struct, io, zlib, time, datetime.

Everything here is part of the trusted base: it states what CPython and its standard
library do.  `selftest/run.py` cross-checks it against CPython on concrete values.
"""
import builtins
import datetime as _rdt
import enum
import functools
import inspect
import os as _ros
import re
import struct as _rstruct
import sys
import types
import math
import zlib as _rzlib
from functools import reduce as _reduce

import z3

from . import core
from . import values as V
from .core import PathEnd, Poison, UNBOUND, Unsupported, ctx
from .values import (Arr, Byte, Lit, SymBool, SymByteArray, SymBytes, SymF64, SymFloat, SymInt, SymMemView,
                     SymRatio, SymStr, Fill, iadd, ii, isub, mkbool, mkint, rope_of, sim, unint)


# ----------------------------------------------------------------- struct
class _Item:
    __slots__ = ("code", "off", "size", "count")

    def __init__(self, code, off, size, count=1):
        self.code, self.off, self.size, self.count = code, off, size, count


def _parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    if symtxt(fmt):
        return _parse_dynamic(fmt)
    real = _rstruct.Struct(fmt)
    order, body = "@", fmt
    if fmt and fmt[0] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    items, off, i = [], 0, 0
    while i < len(body):
        if body[i].isspace():
            i += 1
            continue
        j = i
        while body[j].isdigit():
            j += 1
        cnt = int(body[i:j]) if j > i else 1
        code = body[j]
        i = j + 1
        size = _rstruct.calcsize(order + code)
        if order == "@":
            al = _rstruct.calcsize("@c" + code) - size
            off = -(-off // max(al, 1)) * max(al, 1)
        if code == "x":
            off += cnt
        elif code in "sp":
            items.append(_Item(code, off, cnt))
            off += cnt
        else:
            for _ in range(cnt):
                items.append(_Item(code, off, size))
                off += size
    if off != real.size:
        raise Unsupported(f"struct format {fmt!r}")
    return real, items, order in ">!"


def _parse_dynamic(fmt):
    """a format whose counts of s and x items may be rendered symbolic ints"""
    order, body = "@", fmt
    if fmt[0] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    items, off = [], 0
    pos = 0
    for m in re.finditer(r"\s*(\d+|\ue000(\d+)\ue001)?([a-zA-Z?])\s*", body):
        if m.start() != pos:
            break
        pos = m.end()
        cnt, code = 1, m[3]
        if m[2] is not None:
            cnt = ctx().rendered[int(m[2])]
            if not _br(cnt >= 0):
                raise _rstruct.error("bad char in struct format")
        elif m[1]:
            cnt = int(m[1])
        size = _rstruct.calcsize(order + code)
        if order == "@" and size > 1:
            raise Unsupported("alignment in a struct format with a symbolic count")
        if code in "sp":
            if code == "p":
                raise Unsupported("struct code p")
            items.append(_Item(code, off, cnt))
            off = iadd(off, cnt)
        elif code == "x":
            off = iadd(off, cnt)
        else:
            if not isinstance(cnt, int):
                raise Unsupported("symbolic count of a numeric struct item")
            for _ in range(cnt):
                items.append(_Item(code, off, size))
                off = iadd(off, size)
    if pos != len(body):
        raise Unsupported(f"struct format {fmt!r}")
    return types.SimpleNamespace(size=off, format=fmt), items, order in ">!"


def _as_buffer(b):
    r = rope_of(b)
    if r is None:
        raise TypeError("a bytes-like object is required")
    return r


def _zeros(n):
    if isinstance(n, int):
        return [Lit(bytes(n))] if n else []
    return [Fill(0, n)]


class Struct:
    def __init__(self, fmt):
        self._real, self._items, self._be = _parse(fmt)
        self._size = self._real.size
        self.format = self._real.format

    @property
    def size(self):
        return _conc_int(self._size)

    def _decode(self, r, off):
        """fields at offset off of rope r (bounds already established)"""
        out = []
        for it in self._items:
            o = iadd(off, it.off)
            c = it.code
            if c == "s":
                out.append(_conc(r.slice_terms(o, it.size)))
                continue
            if c == "c":
                out.append(_conc(r.slice_terms(o, 1)))
                continue
            sub = r.slice_terms(o, it.size)
            bs = [sub.at(k) for k in range(it.size)]
            if self._be:
                bs.reverse()
            if c in "bhilqn":
                out.append(V.le_to_int(bs, True))
            elif c in "BHILQNP":
                out.append(V.le_to_int(bs, False))
            elif c == "?":
                v = V.le_to_int(bs, False)
                out.append(v != 0)
            elif c == "d" and not self._be:
                cb = _conc(sub)
                if isinstance(cb, bytes):
                    out.append(_rstruct.unpack("<d", cb)[0])
                else:
                    out.append(SymF64(SymBytes.of([Byte(b) for b in bs]).segs))
            else:
                raise Unsupported(f"struct code {c!r}")
        return tuple(out)

    def unpack(self, buffer):
        r = _as_buffer(buffer)
        if not _br(ii(r.n) == ii(self._size)):
            raise _rstruct.error("unpack requires a buffer of another size")
        return self._decode(r, 0)

    def unpack_from(self, buffer, offset=0):
        r = _as_buffer(buffer)
        off = self._bounds(r, offset, "unpack_from")
        return self._decode(r, off)

    def _bounds(self, r, offset, what):
        u = unint(offset)
        if u is None:
            raise TypeError("an integer offset is required")
        u = sim(u)
        if isinstance(u, int) and isinstance(r.n, int) and isinstance(self._size, int):
            o = u
            if o < 0:
                if o + self._size > 0 or o + r.n < 0:
                    raise _rstruct.error(f"{what}: offset out of range")
                o += r.n
            if r.n - o < self._size:
                raise _rstruct.error(f"{what} requires a larger buffer")
            return o
        neg = u < 0 if isinstance(u, int) else _br(u < 0)
        if neg:
            if _br(z3.Or(ii(u) + ii(self._size) > 0, ii(u) + ii(r.n) < 0)):
                raise _rstruct.error(f"{what}: offset out of range")
            u = iadd(u, r.n)
        if not _br(ii(r.n) - ii(u) >= ii(self._size)):
            raise _rstruct.error(f"{what} requires a larger buffer")
        return u

    def _encode(self, args):
        if len(args) != len(self._items):
            raise _rstruct.error(
                f"pack expected {len(self._items)} items for packing (got {len(args)})")
        segs = []
        pos = 0
        for it, a in zip(self._items, args):
            segs += _zeros(isub(it.off, pos))
            segs += self._item(it, a)
            pos = iadd(it.off, it.size)
        segs += _zeros(isub(self._size, pos))
        return SymBytes.of(segs)

    def _item(self, it, a):
        c = it.code
        if c in "sc":
            r = rope_of(a)
            if r is None:
                raise _rstruct.error(f"argument for {c!r} must be a bytes object")
            if c == "c":
                if not _br(ii(r.n) == 1):
                    raise _rstruct.error("char format requires a bytes object of length 1")
                return r.segs
            if isinstance(r.n, int) and isinstance(it.size, int):
                if r.n >= it.size:
                    return r.slice_terms(0, it.size).segs
                return [*r.segs, Lit(bytes(it.size - r.n))]
            if _br(ii(r.n) >= ii(it.size)):
                return r.slice_terms(0, it.size).segs
            # shorter: zero padded; the split point is symbolic
            return [*r.segs, Fill(0, isub(it.size, r.n))]
        if c == "d" and not self._be:
            if type(a) is SymF64:
                return a.segs
            if isinstance(a, (int, float)) and not V.is_sym(a):
                return [Lit(_rstruct.pack("<d", a))]
            if type(a) in (SymInt, SymRatio, SymFloat, SymBool):
                raise Unsupported("packing a computed double")
            raise _rstruct.error("required argument is not a float")
        if c == "?":
            return [Byte(z3.IntVal(1) if bool(a) else z3.IntVal(0))]
        if c in "bhilqnBHILQNP":
            if V.unint(a) is None:
                if hasattr(type(a), "__index__") and not V.is_sym(a):
                    a = a.__index__()
                else:
                    raise _rstruct.error("required argument is not an integer")
            bs = V.int_to_le(a, it.size, c.islower(), _rstruct.error)
            if self._be:
                bs = bs[::-1]
            return [Byte(b) for b in bs]
        raise Unsupported(f"struct code {c!r}")

    def pack(self, *args):
        return _conc(self._encode(args))

    def pack_into(self, buffer, offset, *args):
        if type(buffer) is not SymByteArray and (
                type(buffer) is not SymMemView or buffer.readonly):
            raise TypeError("a read-write bytes-like object is required")
        # CPython checks the number of arguments, then the bounds, then encodes
        if len(args) != len(self._items):
            raise _rstruct.error("pack_into expected a different number of items")
        off = self._bounds(buffer.v, offset, "pack_into")
        enc = self._encode(args)
        buffer.splice(off, self._size, enc)

    def iter_unpack(self, buffer):
        r = _as_buffer(buffer)
        if not isinstance(r.n, int) or not isinstance(self._size, int):
            raise Unsupported("iter_unpack of symbolic length")
        for k in range(0, r.n, self._size):
            yield self._decode(r, k)


def _conc(r):
    """a rope that is entirely constant becomes real bytes"""
    if type(r) is SymBytes:
        if not r.segs:
            return b""
        if all(isinstance(s, Lit) for s in r.segs):
            return b"".join(s.b for s in r.segs)
    return r


def _br(c):
    if isinstance(c, bool):
        return c
    return ctx().branch(c)


def _conc_int(n):
    return n if isinstance(n, int) else mkint(n)


def make_struct_module():
    m = types.ModuleType("struct")
    m.Struct = Struct
    m.error = _rstruct.error
    m.calcsize = lambda fmt: _conc_int(_parse(fmt)[0].size)
    m.pack = lambda fmt, *a: Struct(fmt).pack(*a)
    m.unpack = lambda fmt, b: Struct(fmt).unpack(b)
    m.pack_into = lambda fmt, b, o, *a: Struct(fmt).pack_into(b, o, *a)
    m.unpack_from = lambda fmt, b, offset=0: Struct(fmt).unpack_from(b, offset)
    m.iter_unpack = lambda fmt, b: Struct(fmt).iter_unpack(b)
    return m


# ----------------------------------------------------------------- streams
class StreamError(OSError):
    pass


class SymStream:
    """binary stream over a rope; kind 'file' or 'mem'"""

    def __init__(self, content, pos=0, kind="file", mode="rb", name=None):
        self.content = content
        self.pos = pos
        self.kind = kind
        self.mode = mode
        self.is_closed = False
        self.log = []
        self.name = name or "<stream>"
        self.hooks = None

    def _open(self):
        if self.is_closed:
            raise ValueError("I/O operation on closed file")

    def _clamp_pos(self):
        """min(pos, len) as term"""
        d = isub(self.content.n, self.pos)
        if isinstance(d, int):
            return self.pos if d >= 0 else self.content.n
        if _br(d >= 0):
            return self.pos
        return self.content.n

    def read(self, size=-1):
        self._open()
        if "r" not in self.mode and "+" not in self.mode:
            import io
            raise io.UnsupportedOperation("not readable")
        p = self._clamp_pos()
        avail = isub(self.content.n, p)
        if size is None:
            n = avail
        else:
            u = unint(size)
            if u is None:
                raise TypeError("argument should be integer or None")
            u = sim(u)
            neg = u < 0 if isinstance(u, int) else _br(u < 0)
            if neg:
                if self.kind == "file" and not _br(ii(u) == -1):
                    raise ValueError("read length must be non-negative or -1")
                n = avail
            else:
                d = isub(avail, u)
                fits = d >= 0 if isinstance(d, int) else _br(d >= 0)
                n = u if fits else avail
        r = self.content.slice_terms(p, n)
        if not (isinstance(n, int) and n == 0):
            self.pos = iadd(p, n)
        return _conc(r)

    read1 = read

    def peek(self, size=0):
        raise Unsupported("peek")

    def readinto(self, b):
        if type(b) is not SymByteArray and (type(b) is not SymMemView or b.readonly):
            raise Unsupported("readinto of a foreign buffer")
        r = rope_of(self.read(mkint(b.n)))
        b.splice(0, r.n, r)
        return mkint(r.n)

    def getvalue(self):
        return _conc(self.content)

    def getbuffer(self):
        raise Unsupported("getbuffer")

    def seek(self, off, whence=0):
        self._open()
        u = unint(off)
        if u is None:
            raise TypeError("integer offset required")
        w = unint(whence)
        if not isinstance(w, int):
            raise Unsupported("symbolic whence")
        if w == 0:
            t = u
        elif w == 1:
            t = iadd(self.pos, u)
        elif w == 2:
            t = iadd(self.content.n, u)
        else:
            raise ValueError("invalid whence")
        neg = t < 0 if isinstance(t, int) else _br(t < 0)
        if neg:
            if self.kind == "mem" and w != 0:
                t = 0
            elif self.kind == "mem":
                raise ValueError("negative seek value")
            else:
                raise OSError(22, "Invalid argument")
        self.pos = t
        return mkint(t)

    def tell(self):
        self._open()
        return mkint(self.pos)

    def write(self, data):
        self._open()
        if self.mode == "rb":
            import io
            raise io.UnsupportedOperation("not writable")
        r = rope_of(data)
        if r is None:
            raise TypeError("a bytes-like object is required")
        d = isub(self.content.n, self.pos)
        if not isinstance(d, int) and _br(d == 0):
            d = 0
        if isinstance(d, int) and d == 0:
            self.log.append(("append", r))
            self.content = SymBytes.of(self.content.segs + r.segs)
        else:
            over = isub(d, r.n)
            if isinstance(over, int):
                inside = over >= 0
            else:
                inside = _br(over >= 0)
            if not inside:
                raise Unsupported("write straddling the end of file")
            self.log.append(("overwrite", self.pos, r))
            if self.hooks is not None:
                self.hooks(self.pos, r)
            a = self.content.slice_terms(0, self.pos)
            b = self.content.slice_terms(iadd(self.pos, r.n), over)
            self.content = SymBytes.of(a.segs + r.segs + b.segs)
        self.pos = iadd(self.pos, r.n)
        return mkint(r.n)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        self._open()
        u = self.pos if size is None else unint(size)
        if u is None:
            raise TypeError("integer argument expected")
        if not _br(ii(u) >= 0):
            raise ValueError("negative size value") if self.kind == "mem" else OSError(22, "Invalid argument")
        d = isub(self.content.n, u)
        if not _br(ii(d) >= 0):
            if self.kind == "mem":
                return mkint(u)
            raise Unsupported("truncate beyond the end")
        self.log.append(("truncate", u))
        if self.hooks is not None:
            self.hooks(u, None)
        self.content = self.content.slice_terms(0, u)
        return mkint(u)

    def flush(self):
        self._open()

    def close(self):
        self.log.append(("close",))
        self.is_closed = True

    @property
    def closed(self):
        return self.is_closed

    def readable(self):
        return self.mode == "rb"

    def writable(self):
        return self.mode != "rb"

    def seekable(self):
        return True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise Unsupported("line iteration of a binary stream")

    def fileno(self):
        raise Unsupported("fileno")

    def __deepcopy__(self, memo):
        return self


# ----------------------------------------------------------------- zlib
def zmemo():
    c = ctx()
    return c.zmemo


def z_decompress(data, *a, **k):
    if a or k:
        raise Unsupported("zlib.decompress options")
    r = rope_of(data)
    if r is None:
        raise TypeError("a bytes-like object is required")
    for comp, plain in zmemo():
        if V.syntactic_eq(comp, r):
            return _conc(plain)
    for comp, plain in zmemo():
        g = V.rope_eq_goal(comp, r)
        if g is True or (g is not False and ctx().implied(g)):
            return _conc(plain)
    if all(isinstance(s, Lit) for s in r.segs):
        return _rzlib.decompress(b"".join(s.b for s in r.segs))
    c = ctx()
    plain = V.fresh_bytes("inflated", inp=False)
    c.zmemo.append((r, plain))
    return plain


def z_compress(data, /, level=-1, *a, **k):
    if a or k:
        raise Unsupported("zlib.compress options")
    r = rope_of(data)
    if r is None:
        raise TypeError("a bytes-like object is required")
    u = unint(level)
    if u is None:
        raise TypeError("level must be an integer")
    u = sim(u)
    if not _br(z3.And(ii(u) >= -1, ii(u) <= 9)):
        raise _rzlib.error("Bad compression level")
    c = ctx()
    lv = z3.simplify(ii(u))
    for l0, r0, comp in c.__dict__.setdefault("zcomp", []):
        if l0.get_id() == lv.get_id() and V.syntactic_eq(r0, r):
            return comp
    comp = V.fresh_bytes("deflated", inp=False)
    c.zcomp.append((lv, r, comp))
    # stated bound of deflate: at least the 8 byte envelope, at most the stored size plus overhead
    c.add(z3.And(ii(comp.n) >= 8, ii(comp.n) <= 2 * ii(r.n) + 64))
    c.zmemo.append((comp, r))
    return comp


class Decompress:
    """zlib.decompressobj: the stream given whole, the result taken in parts"""

    def __init__(self):
        self.whole = self.plain = None
        self.at = 0
        self.unconsumed_tail = b""

    def __deepcopy__(self, memo):
        return self

    def decompress(self, data, max_length=0, /):
        r = rope_of(data)
        if r is None:
            raise TypeError("a bytes-like object is required")
        if self.plain is None:
            self.whole = r
            self.plain = z_decompress(data)
        elif data is not self.unconsumed_tail:
            raise Unsupported("a compressed stream fed in pieces")
        m = sim(unint(max_length)) if unint(max_length) is not None else None
        if m is None:
            raise TypeError("max_length must be an integer")
        if _br(ii(m) < 0):
            raise ValueError("max_length must be non-negative")
        p = rope_of(self.plain)
        n = sim(ii(p.n) - self.at)
        if _br(ii(m) == 0):
            out = _conc(p[mkint(ii(self.at)):])
            self.at = sim(ii(p.n))
            self.unconsumed_tail = b""
            return out
        k = sim(z3.If(ii(m) < ii(n), ii(m), ii(n)))
        out = p[mkint(ii(self.at)):mkint(ii(self.at) + ii(k))]
        self.at = sim(ii(self.at) + ii(k))
        # what zlib has not looked at yet: any end of what it was given
        c = ctx()
        left = z3.Int(c.fresh("unconsumed"))
        d = rope_of(data)
        c.add(z3.And(left >= 0, left <= ii(d.n)))
        self.unconsumed_tail = d[mkint(ii(d.n) - left):]
        return _conc(out)

    def flush(self, length=None, /):
        if self.plain is None:
            return b""
        p = rope_of(self.plain)
        out = p[mkint(ii(self.at)):]
        self.at = sim(ii(p.n))
        self.unconsumed_tail = b""
        return _conc(out)

    @property
    def eof(self):
        if self.plain is None:
            return False
        if not _br(ii(self.at) == ii(rope_of(self.plain).n)):
            return False
        if _br(ii(rope_of(self.unconsumed_tail).n) == 0):
            return True
        return mkbool(z3.Bool(ctx().fresh("eof")))

    @property
    def unused_data(self):
        raise Unsupported("zlib: bytes behind the compressed stream")


class Compress:
    """zlib.compressobj: data given whole, the stream taken in two parts cut anywhere"""

    def __init__(self, level=-1):
        self.level = level
        self.comp = None
        self.done = False
        u = unint(level)
        if u is None:
            raise TypeError("level must be an integer")
        if not _br(z3.And(ii(sim(u)) >= -1, ii(sim(u)) <= 9)):
            raise ValueError("Invalid initialization option")

    def __deepcopy__(self, memo):
        return self

    def compress(self, data, /):
        if self.comp is not None or self.done:
            raise Unsupported("a compressed stream made of several pieces")
        self.comp = z_compress(data, self.level)
        c = ctx()
        self.cut = z3.Int(c.fresh("flushed"))
        n = ii(rope_of(self.comp).n)
        c.add(z3.And(self.cut >= 0, self.cut < n))
        return _conc(rope_of(self.comp)[:mkint(self.cut)])

    def flush(self, mode=_rzlib.Z_FINISH, /):
        if mode != _rzlib.Z_FINISH or self.done:
            raise Unsupported("zlib flush mode")
        self.done = True
        if self.comp is None:
            return z_compress(b"", self.level)
        return _conc(rope_of(self.comp)[mkint(self.cut):])


def z_compressobj(level=-1, *a, **k):
    if a or k:
        raise Unsupported("zlib.compressobj options")
    return Compress(level)


def z_decompressobj(*a, **k):
    if a or k:
        raise Unsupported("zlib.decompressobj options")
    return Decompress()


def make_zlib_module():
    m = types.ModuleType("zlib")
    m.compress = z_compress
    m.decompress = z_decompress
    m.compressobj = z_compressobj
    m.decompressobj = z_decompressobj
    m.error = _rzlib.error
    for n in dir(_rzlib):
        if n.startswith("Z_") or n in ("MAX_WBITS", "DEFLATED", "DEF_MEM_LEVEL"):
            setattr(m, n, getattr(_rzlib, n))

    def missing(name):
        def f(*a, **k):
            raise Unsupported(f"zlib.{name}")
        return f
    for n in ("crc32", "adler32"):
        setattr(m, n, missing(n))
    return m


# ----------------------------------------------------------------- time and datetime
CLOCK_MAX = 15_000_000_000.0


def now_reading():
    c = ctx()
    f = SymFloat(0.0, CLOCK_MAX)
    log = getattr(c, "clock_log", None)
    if log is None:
        log = c.clock_log = []
    log.append(f)
    return f


def make_time_module():
    m = types.ModuleType("time")
    m.time = now_reading

    def missing(name):
        def f(*a, **k):
            raise Unsupported(f"time.{name}")
        return f
    for n in ("time_ns", "monotonic", "perf_counter", "sleep", "localtime", "gmtime",
              "monotonic_ns", "perf_counter_ns", "strftime"):
        setattr(m, n, missing(n))
    return m


WEEKDAY = z3.Function("Weekday", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim(y, m):
    return z3.If(m == 2, z3.If(leap(y), z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


ORDINAL = z3.Function("Ordinal", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
BEFORE_MONTH = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def ordinal_term(y, m, d):
    """the proleptic Gregorian ordinal, 1 January of year 1 being 1 (datetime.toordinal)"""
    before = z3.IntVal(0)
    for k in range(1, 12):
        before = z3.If(m > k, z3.IntVal(BEFORE_MONTH[k]), before)
    p = y - 1
    return (365 * p + p / 4 - p / 100 + p / 400 + before
            + z3.If(z3.And(m > 2, leap(y)), z3.IntVal(1), z3.IntVal(0)) + d)


def weekday_term(y, m, d):
    """WEEKDAY(y, m, d), Monday = 0; spelled out where the context asks for the calendar"""
    c = ctx()
    t = WEEKDAY(y, m, d)
    c.keep.append(t)
    c.fact(("wd", t.get_id()), z3.And(t >= 0, t <= 6))
    if getattr(c.session, "exact_calendar", False):
        c.fact(("wdx", t.get_id()), t == (ordinal_term(y, m, d) + 6) % 7)
    return t


class SymIsoCalendar:
    def __init__(self, d):
        self.weekday = d.isoweekday()

    def __getitem__(self, k):
        if k not in (2, -1):
            raise Unsupported("ISO year and week")
        return self.weekday

    def __iter__(self):
        raise Unsupported("ISO year and week")

    def __getattr__(self, n):
        raise Unsupported(f"isocalendar().{n}")


class SymTimeTuple:
    def __init__(self, d):
        self.tm_year, self.tm_mon, self.tm_mday = d.year, d.month, d.day
        self.tm_hour, self.tm_min, self.tm_sec = d.hour, d.minute, d.second
        self.tm_wday = d.weekday()
        m, y = ii(unint(d.month)), ii(unint(d.year))
        before = ii(0)
        for k, n in enumerate((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
            before = before + z3.If(m > k + 1, n, 0)
        self.tm_yday = V.mkint(before + z3.If(z3.And(m > 2, dim(y, ii(2)) == 29), 1, 0) +
                               ii(unint(d.day)))

    def _seq(self):
        return (self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_sec,
                self.tm_wday, self.tm_yday, core.Poison("tm_isdst"))

    def __getitem__(self, k):
        return self._seq()[k]

    def __iter__(self):
        return iter(self._seq())

    def __len__(self):
        return 9

    def __getattr__(self, n):
        raise Unsupported(f"timetuple().{n}")


def date_ok(y, m, d):
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m))


DAY_US = 86400 * 10 ** 6
TD_UNITS = {"days": DAY_US, "seconds": 10 ** 6, "microseconds": 1, "milliseconds": 1000,
            "minutes": 60 * 10 ** 6, "hours": 3600 * 10 ** 6, "weeks": 7 * DAY_US}


class SymTimedelta:
    """a duration, in microseconds"""

    def __init__(self, us, _trusted=False):
        self.us = sim(us)
        if not _trusted and not isinstance(self.us, int):
            days = ii(self.us) / DAY_US
            if not ctx().branch(z3.And(days >= -999999999, days <= 999999999)):
                raise OverflowError("timedelta out of range")

    @staticmethod
    def of(x):
        """microseconds of a duration, None for anything else"""
        if type(x) is SymTimedelta:
            return x.us
        if isinstance(x, _rdt.timedelta):
            return (x.days * 86400 + x.seconds) * 10 ** 6 + x.microseconds
        return None

    @staticmethod
    def make(*a, **k):
        a = {**dict(zip(TD_UNITS, a)), **k}
        if not any(has_sym(x) for x in a.values()):
            return _rdt.timedelta(**a)
        us = 0
        for n, x in a.items():
            if n not in TD_UNITS:
                raise TypeError(f"{n!r} is an invalid keyword argument")
            if isinstance(x, float) and x.is_integer():
                x = int(x)
            if unint(x) is None:
                raise Unsupported("a timedelta of a computed double")
            us = iadd(us, ii(unint(x)) * TD_UNITS[n])
        return SymTimedelta(us)

    def _dms(self):
        u = ii(self.us)
        return u / DAY_US, u % DAY_US / 10 ** 6, u % 10 ** 6

    days = property(lambda self: mkint(sim(self._dms()[0])))
    seconds = property(lambda self: mkint(sim(self._dms()[1])))
    microseconds = property(lambda self: mkint(sim(self._dms()[2])))

    def __add__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else SymTimedelta(iadd(self.us, u))

    __radd__ = __add__

    def __sub__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else SymTimedelta(isub(self.us, u))

    def __rsub__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else SymTimedelta(isub(u, self.us))

    def __neg__(self):
        return SymTimedelta(isub(0, self.us))

    def __mul__(self, o):
        u = unint(o)
        if u is None:
            raise Unsupported("a timedelta times a double")
        return SymTimedelta(ii(unint(mkint(self.us) * mkint(u))))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        u = self.of(o)
        if u is not None:
            return mkint(self.us) // mkint(u)
        if unint(o) is None:
            return NotImplemented
        return SymTimedelta(ii(unint(mkint(self.us) // o)))

    def __mod__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else SymTimedelta(ii(unint(mkint(self.us) % mkint(u))))

    def __rfloordiv__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else mkint(u) // mkint(self.us)

    def __rmod__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else SymTimedelta(ii(unint(mkint(u) % mkint(self.us))))

    def __truediv__(self, o):
        u = self.of(o)
        if u is None:
            raise Unsupported("a timedelta divided by a number")
        return mkint(self.us) / mkint(u)

    def __rtruediv__(self, o):
        u = self.of(o)
        return NotImplemented if u is None else mkint(u) / mkint(self.us)

    def total_seconds(self):
        return mkint(self.us) / 10 ** 6

    def __abs__(self):
        return SymTimedelta(ii(unint(abs(mkint(self.us)))))

    def __bool__(self):
        return bool(mkint(self.us) != 0)

    def _cmp(self, o, f):
        u = self.of(o)
        return NotImplemented if u is None else f(mkint(self.us), mkint(u))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None

    def __repr__(self):
        return V.SYMTXT + "<SymTimedelta>"

    __str__ = __repr__

    def __format__(self, s):
        return V.SYMTXT + "<SymTimedelta>"


class SymDatetime:
    """an aware or naive date-time with symbolic fields"""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0,
                 tzinfo=None, *, fold=0, _trusted=False):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second = hour, minute, second
        self.microsecond, self.tzinfo = microsecond, tzinfo
        if not _trusted:
            for x in (year, month, day, hour, minute, second, microsecond):
                if unint(x) is None:
                    raise TypeError("an integer is required")
            y, mo, d, h, mi, s, us = [ii(unint(x)) for x in (
                year, month, day, hour, minute, second, microsecond)]
            ok = z3.And(date_ok(y, mo, d), h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0,
                        s <= 59, us >= 0, us <= 999999)
            if not ctx().branch(ok):
                raise ValueError("date-time field out of range")

    @staticmethod
    def fresh(name, tzinfo=None, inp=False):
        c = ctx()
        fs = {}
        for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23),
                          ("minute", 0, 59), ("second", 0, 59), ("microsecond", 0, 999999)):
            fs[n] = V.fresh_int(f"{name}.{n}", lo, hi, inp=inp)
        c.add(date_ok(fs["year"].t, fs["month"].t, fs["day"].t))
        return SymDatetime(*fs.values(), tzinfo, _trusted=True)

    def _ymd(self):
        return ii(unint(self.year)), ii(unint(self.month)), ii(unint(self.day))

    def weekday(self):
        return SymInt(weekday_term(*self._ymd()))

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        c = ctx()
        w = weekday_term(*self._ymd())
        t = ORDINAL(*self._ymd())
        c.keep.append(t)
        c.fact(("ord", t.get_id()), z3.And(t >= 1, t <= 3652059, w == (t + 6) % 7))
        if getattr(c.session, "exact_calendar", False):
            c.fact(("ordx", t.get_id()), t == ordinal_term(*self._ymd()))
        return SymInt(t)

    def date(self):
        return SymDatetime(self.year, self.month, self.day, tzinfo=None, _trusted=True)

    def isocalendar(self):
        return SymIsoCalendar(self)

    def timetuple(self):
        return SymTimeTuple(self)

    def replace(self, **k):
        f = {n: getattr(self, n) for n in ("year", "month", "day", "hour", "minute", "second",
                                           "microsecond", "tzinfo")}
        for n in k:
            if n not in f:
                raise Unsupported(f"datetime.replace({n})")
        f.update(k)
        return SymDatetime(**f)

    def __bool__(self):
        return True

    def _tod(self):
        """microseconds since midnight"""
        h, m, s, us = (ii(unint(getattr(self, n))) for n in (
            "hour", "minute", "second", "microsecond"))
        return ((h * 60 + m) * 60 + s) * 10 ** 6 + us

    def __add__(self, o):
        u = SymTimedelta.of(o)
        if u is None:
            return NotImplemented
        c = ctx()
        f = {n: getattr(self, n) for n in ("hour", "minute", "second", "microsecond")}
        us = sim(ii(unint(self.microsecond)) + ii(u))
        if not isinstance(us, int) and not c.implied(z3.And(us >= 0, us < 10 ** 6)) \
                or isinstance(us, int) and not 0 <= us < 10 ** 6:
            t = sim(self._tod() + ii(u))
            days = sim(ii(t) / DAY_US)
            if not (days == 0 if isinstance(days, int) else c.branch(days == 0)):
                was = ordinal_term(*self._ymd()) + ii(days)
                if not c.branch(z3.And(was >= 1, was <= 3652059)):
                    raise OverflowError("date value out of range")
                d = SymDatetime.fresh("day", self.tzinfo)
                c.add(ordinal_term(*d._ymd()) == was)
            else:
                d = self
            t = ii(t) % DAY_US
            f = {"hour": t / (3600 * 10 ** 6), "minute": t / (60 * 10 ** 6) % 60,
                 "second": t / 10 ** 6 % 60, "microsecond": t % 10 ** 6}
            f = {n: mkint(sim(x)) for n, x in f.items()}
        else:
            d = self
            f["microsecond"] = mkint(us)
        return SymDatetime(d.year, d.month, d.day, f["hour"], f["minute"], f["second"],
                           f["microsecond"], self.tzinfo, _trusted=True)

    __radd__ = __add__

    def __sub__(self, o):
        u = SymTimedelta.of(o)
        if u is not None:
            return self + SymTimedelta(isub(0, u), _trusted=True)
        if isinstance(o, _rdt.datetime):
            o = SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond,
                            o.tzinfo, _trusted=True)
        if type(o) is not SymDatetime:
            return NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        a, b = self, o
        if a.tzinfo is not b.tzinfo:
            a, b = a.astimezone(_rdt.timezone.utc), b.astimezone(_rdt.timezone.utc)
        return SymTimedelta((ordinal_term(*a._ymd()) - ordinal_term(*b._ymd())) * DAY_US
                            + a._tod() - b._tod(), _trusted=True)

    def __rsub__(self, o):
        if not isinstance(o, _rdt.datetime):
            return NotImplemented
        return SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond,
                           o.tzinfo, _trusted=True) - self

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        if type(self.tzinfo) is not _rdt.timezone:
            raise Unsupported("an unknown time zone")
        return self.tzinfo.utcoffset(None)

    def astimezone(self, tz=None):
        if type(tz) is not _rdt.timezone or self.tzinfo is None:
            raise Unsupported("conversion from or to local time")
        if tz is self.tzinfo:
            return self
        return (self - self.utcoffset()).replace(tzinfo=tz) + tz.utcoffset(None)

    def _order(self, o):
        if isinstance(o, _rdt.datetime):
            o = SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond,
                            o.tzinfo, _trusted=True)
        if type(o) is not SymDatetime or (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("not supported between these instances")
        return (self - o).us

    def __lt__(self, o):
        return mkbool(ii(self._order(o)) < 0)

    def __le__(self, o):
        return mkbool(ii(self._order(o)) <= 0)

    def __gt__(self, o):
        return mkbool(ii(self._order(o)) > 0)

    def __ge__(self, o):
        return mkbool(ii(self._order(o)) >= 0)

    def __eq__(self, o):
        if type(o) is not SymDatetime:
            return NotImplemented
        if self.tzinfo is not o.tzinfo:
            raise Unsupported("comparison of date-times of different zones")
        return mkbool(z3.And(*[ii(unint(getattr(self, n))) == ii(unint(getattr(o, n))) for n in (
            "year", "month", "day", "hour", "minute", "second", "microsecond")]))

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(_rdt.datetime, name):
            raise AttributeError(name)
        raise Unsupported(f"datetime.{name}")

    def __repr__(self):
        return V.SYMTXT + "<SymDatetime>"

    __str__ = __repr__

    def __format__(self, s):
        return V.SYMTXT + "<SymDatetime>"


def from_timestamp(t, tz=None):
    c = ctx()
    memo = getattr(c, "ts_memo", None)
    if memo is None:
        memo = c.ts_memo = []
    if type(t) not in (SymFloat, SymInt, int, float):
        raise Unsupported("fromtimestamp argument")
    r = t.r if type(t) is SymFloat else z3.ToReal(t.t) if type(t) is SymInt else z3.RealVal(t)
    key = "utc" if tz is _rdt.timezone.utc else ("local" if tz is None else id(tz))
    for k, x, d in memo:
        if k == key and (x.get_id() == r.get_id() or c.implied(x == r)):
            return d
    d = SymDatetime.fresh("ts", tz)
    memo.append((key, r, d))
    return d


def make_datetime_module():
    m = types.ModuleType("datetime")

    class datetime(SymDatetime):
        def __new__(cls, *a, **k):
            return SymDatetime(*a, **k)

        @staticmethod
        def now(tz=None):
            return from_timestamp(now_reading(), tz)

        @staticmethod
        def utcnow():
            return SymDatetime.fresh("utcnow", None)

        @staticmethod
        def fromtimestamp(t, tz=None):
            return from_timestamp(t, tz)

        @staticmethod
        def utcfromtimestamp(t):
            d = from_timestamp(t, _rdt.timezone.utc)
            return SymDatetime(d.year, d.month, d.day, d.hour, d.minute, d.second,
                               d.microsecond, None, _trusted=True)

    m.datetime = datetime
    m.timezone = _rdt.timezone
    m.UTC = _rdt.timezone.utc

    class timedelta(SymTimedelta):
        min, max, resolution = _rdt.timedelta.min, _rdt.timedelta.max, _rdt.timedelta.resolution

        def __new__(cls, *a, **k):
            return SymTimedelta.make(*a, **k)

    class date:
        def __init__(self, *a, **k):
            raise Unsupported("date and time objects")
    m.timedelta = timedelta
    m.date = m.time = date
    m.tzinfo = _rdt.tzinfo
    m.MINYEAR, m.MAXYEAR = 1, 9999
    return m


def make_calendar_module():
    import calendar as _rcal
    m = types.ModuleType("calendar")

    def weekday(year, month, day):
        return SymDatetime(year, month, day).weekday()

    def isleap(year):
        return mkbool(leap(ii(unint(year))))
    m.weekday, m.isleap = weekday, isleap
    for n in ("MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"):
        setattr(m, n, int(getattr(_rcal, n)))

    def missing(name):
        def f(*a, **k):
            raise Unsupported(f"calendar.{name}")
        return f
    for n in dir(_rcal):
        if not n.startswith("_") and not hasattr(m, n):
            setattr(m, n, missing(n))
    return m


# ----------------------------------------------------------------- os and io
def make_os_module():
    m = types.ModuleType("os")
    for n in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "PathLike", "fspath", "linesep", "sep",
              "fsencode", "fsdecode", "name", "altsep", "extsep", "pathsep", "curdir", "pardir",
              "devnull", "O_RDONLY", "O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC"):
        setattr(m, n, getattr(_ros, n))
    m.path = make_path_module()

    def missing(name):
        def f(*a, **k):
            raise Unsupported(f"os.{name}")
        return f
    for n in dir(_ros):
        if not n.startswith("__") and not hasattr(m, n):
            setattr(m, n, missing(n))
    return m


PURE_PATH = {"join", "split", "splitext", "basename", "dirname", "normpath", "isabs",
             "commonprefix", "commonpath", "normcase", "splitdrive"}


def make_path_module():
    """os.path: computations on paths are native, what is on the disk is unknown"""
    m = types.ModuleType("posixpath")

    def there(name):
        def f(path):
            if V.is_sym(path):
                raise Unsupported(f"os.path.{name} of symbolic data")
            _ros.fspath(path)
            c = core.ctx()
            seen = c.__dict__.setdefault("on_disk", {})
            k = (name, repr(path))
            if k not in seen:
                seen[k] = SymBool(z3.Bool(c.fresh(name)))
            return seen[k]
        return f

    def missing(name):
        def f(*a, **k):
            raise Unsupported(f"os.path.{name}")
        return f
    for n in dir(_ros.path):
        if n.startswith("__"):
            continue
        x = getattr(_ros.path, n)
        if n in PURE_PATH or not callable(x):
            setattr(m, n, x)
        elif n in ("exists", "isfile", "lexists", "isdir", "islink"):
            setattr(m, n, there(n))
        else:
            setattr(m, n, missing(n))
    return m


# functions of these modules read or change the world outside the program
WORLD = {"os", "posix", "nt", "shutil", "tempfile", "glob", "random", "_random", "secrets", "uuid",
         "socket", "_socket", "subprocess", "platform", "locale", "_locale", "getpass", "signal",
         "_signal", "fcntl", "genericpath", "select", "resource"}
PURE_PATHLIB = {"joinpath", "with_suffix", "with_name", "with_stem", "as_posix", "is_absolute",
                "relative_to", "is_relative_to", "__fspath__", "__str__", "__truediv__", "match",
                "__bytes__", "as_uri", "__repr__", "__hash__", "__eq__"}


def world(f, a, k):
    """the result of a call that depends on the world, or None when f does not"""
    mod = getattr(f, "__module__", None) or ""
    name = getattr(f, "__name__", "")
    if mod == "pathlib" and name not in PURE_PATHLIB and not isinstance(f, type):
        me = getattr(f, "__self__", None)
        if me is not None and not isinstance(me, type):
            if name == "open":
                return (shim_open(me, *a, **k),)
            if name in ("exists", "is_file", "is_dir", "is_symlink"):
                return (vc_call(getattr(_shim_path(), {
                    "exists": "exists", "is_file": "isfile", "is_dir": "isdir",
                    "is_symlink": "islink"}[name]), str(me)),)
        raise Unsupported(f"pathlib: {name}")
    if mod in WORLD and mod + "." + name not in ("os.fspath", "posix.fspath", "os.fsencode",
                                                 "os.fsdecode"):
        raise Unsupported(f"{mod}.{name}")
    return None


_PATHMOD = []


def _shim_path():
    if not _PATHMOD:
        _PATHMOD.append(make_path_module())
    return _PATHMOD[0]


def shim_bytesio(initial=b""):
    r = rope_of(initial)
    if r is None:
        raise TypeError("a bytes-like object is required")
    s = SymStream(r, 0, "mem", "r+b")
    return s


def make_io_module():
    import io as _rio
    m = types.ModuleType("io")
    m.BytesIO = shim_bytesio
    m.open = shim_open
    for n in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "IOBase", "RawIOBase", "BufferedIOBase",
              "BufferedReader", "BufferedWriter", "UnsupportedOperation", "DEFAULT_BUFFER_SIZE",
              "TextIOBase", "StringIO"):
        setattr(m, n, getattr(_rio, n))
    return m


def shim_open(file, mode="r", *a, **k):
    s = core.ctx().session
    f = getattr(s, "open_file", None)
    if f is None:
        raise Unsupported("open()")
    return f(file, mode, *a, **k)


# ----------------------------------------------------------------- builtins
def pytypes(x):
    """python types a symbolic value stands for (most specific first)"""
    t = type(x)
    if t is SymInt:
        return [x.cls] if x.cls is not None else [int]
    if t is SymBool:
        return [bool]
    if t is SymBytes:
        return [bytes]
    if t is SymByteArray:
        return [bytearray]
    if t is SymMemView:
        return [memoryview]
    if t is SymStr:
        return [str]
    if t in (SymF64, SymRatio, SymFloat):
        return [float]
    if t is SymDatetime:
        return [_rdt.datetime]
    if t is SymTimedelta:
        return [_rdt.timedelta]
    if t is V.SymPieces:
        return [list]
    if hasattr(t, "__vc_pytypes__"):
        return x.__vc_pytypes__
    if t is SymStream:
        import io
        if x.kind == "mem":
            return [io.BytesIO]
        return [io.BufferedReader if x.mode == "rb" else io.BufferedWriter]
    return None


class AnyExc:
    """an exception class about which nothing is known: every question splits the cases"""

    def __init__(self):
        import builtins
        import struct
        import zlib
        import _io
        user = type("UserError", (Exception,), {})
        base = type("UserBaseError", (BaseException,), {})
        self.cands = [x for x in vars(builtins).values()
                      if isinstance(x, type) and issubclass(x, BaseException)]
        self.cands += [user, base, struct.error, zlib.error, _io.UnsupportedOperation]
        self.asked = []

    def ask(self, key, f):
        """does f hold of the class"""
        yes, no = [x for x in self.cands if f(x)], [x for x in self.cands if not f(x)]
        if yes and no:
            b = _br(z3.Bool(core.ctx().fresh("exception_class")))
        else:
            b = bool(yes)
        self.cands = yes if b else no
        self.asked.append((f, b))
        return b

    def known(self, T):
        """classes the questions are about are possible too (and classes derived from them)"""
        for t in T if isinstance(T, tuple) else (T,):
            if isinstance(t, tuple):
                self.known(t)
            elif isinstance(t, type) and issubclass(t, BaseException):
                for x in (t, type("Derived", (t,), {})) if t not in self.cands else ():
                    if all(f(x) == b for f, b in self.asked):
                        self.cands.append(x)

    def sub(self, T):
        self.known(T)
        return self.ask(T, lambda x: issubclass(x, T))

    def is_(self, t):
        if t is self:
            return True
        if not (isinstance(t, type) and issubclass(t, BaseException)):
            return False
        self.known(t)
        return self.ask(t, lambda x: x is t)

    def __eq__(self, o):
        return self.is_(o)

    def __ne__(self, o):
        return not self.is_(o)

    def __hash__(self):
        raise Unsupported("hash of an unknown exception class")

    def __getattr__(self, n):
        raise Unsupported(f".{n} of an unknown exception class")


class AnyExcValue(BaseException):
    def __init__(self, cls):
        super().__init__()
        self._vc_cls = cls

    def _bad(self, *a, **k):
        raise Unsupported("use of an unknown exception's contents")

    __str__ = __repr__ = __eq__ = __ne__ = _bad
    __hash__ = BaseException.__hash__


def shim_isinstance(x, T):
    if isinstance(x, Poison):
        x._bad()
    if type(x) is AnyExcValue:
        return x._vc_cls.sub(T)
    if type(x) is AnyExc:
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (type, object) for t in ts)
    ts = pytypes(x)
    if ts is None:
        return isinstance(x, _real_types(T))
    import typing

    def one(t):
        if isinstance(t, (tuple, list)):
            return any(one(u) for u in t)
        if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
            return any(one(u) for u in typing.get_args(t))
        t = _real_types(t)
        return any(issubclass(s, t) for s in ts)
    return one(T)


def _real_types(T):
    if isinstance(T, tuple):
        return tuple(_real_types(t) for t in T)
    if isinstance(T, type) and T.__module__.startswith("pyvc.shims") and T.__name__ == "datetime":
        return (_rdt.datetime, SymDatetime)
    if isinstance(T, type) and T.__module__.startswith("pyvc.shims") and T.__name__ == "timedelta":
        return (_rdt.timedelta, SymTimedelta)
    return T


def shim_issubclass(a, b):
    if type(a) is AnyExc:
        return a.sub(b)
    return issubclass(a, b)


def shim_type(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], Poison):
            a[0]._bad()
        if type(a[0]) is AnyExcValue:
            return a[0]._vc_cls
        ts = pytypes(a[0])
        return ts[0] if ts else type(a[0])
    return type(*a, **k)


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.start, self.stop = mkint(lo), mkint(hi)

        self.up = not isinstance(step, int) or step > 0

    def _len(self):
        d = isub(self.hi, self.lo) if self.up else isub(self.lo, self.hi)
        if not _br(ii(d) > 0):
            return 0
        if not isinstance(self.step, int):
            return (mkint(iadd(d, self.step)) - 1) // mkint(self.step)
        return mkint(sim((ii(d) + abs(self.step) - 1) / abs(self.step)))

    def __iter__(self):
        k = self.lo
        n = 0
        while True:
            c = (ii(k) < ii(self.hi)) if self.up else (ii(k) > ii(self.hi))
            if not _br(z3.simplify(c) if not isinstance(c, bool) else c):
                return
            yield mkint(k)
            k = iadd(k, self.step)
            n += 1
            if n > 300:
                raise Unsupported("unbounded range")


def shim_range(*a):
    us = [unint(x) for x in a]
    if any(u is None for u in us):
        raise TypeError("range() arguments must be integers")
    us = [sim(u) for u in us]
    if all(isinstance(u, int) for u in us):
        return range(*us)
    lo, hi, st = (0, us[0], 1) if len(us) == 1 else (us[0], us[1], us[2] if len(us) > 2 else 1)
    if not isinstance(st, int):
        if _br(ii(st) == 0):
            raise ValueError("range() arg 3 must not be zero")
        if not _br(ii(st) > 0):
            raise Unsupported("negative symbolic range step")
    elif st == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(lo, hi, st)


def shim_len(x):
    if isinstance(x, Poison):
        x._bad()
    t = type(x)
    if t in (SymBytes, SymByteArray, SymMemView):
        return mkint(x.n)
    if t is SymStr:
        return x._len()
    if symtxt(x):
        raise Unsupported("length of the text of a symbolic value")
    if t is SymRange or t is V.SymPieces:
        return x._len()
    return len(x)


def shim_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return SymInt(x.t)
        if t is SymBool:
            return mkint(unint(x))
        if t in (SymRatio, SymFloat):
            return x.trunc() if t is SymRatio else x.trunc()
        if t in (SymF64, SymStr, SymBytes, SymByteArray, SymMemView):
            raise Unsupported("int() of symbolic data")
    return int(*a, **k)


def shim_bool(*a):
    return bool(*a)


def shim_float(*a):
    if a and type(a[0]) in (SymFloat, SymRatio, SymF64):
        return a[0]
    if a and type(a[0]) is SymInt:
        return SymRatio.of(a[0])
    if a and V.is_sym(a[0]):
        raise Unsupported("float() of symbolic data")
    return float(*a)


def shim_str(*a, **k):
    if a and type(a[0]) is SymStr:
        return a[0]
    if a and (type(a[0]) in (SymBytes, SymByteArray, SymMemView)) and (len(a) > 1 or k):
        return rope_of(a[0]).decode(*a[1:], **k)
    if a and (V.is_sym(a[0]) or type(a[0]) is SymDatetime):
        return format(a[0]) if type(a[0]) is SymInt else V.SYMTXT + "<symbolic>"
    return str(*a, **k)


def _mk_bytes(a, k):
    if k or len(a) > 1:
        if a and type(a[0]) is SymStr:
            return rope_of(a[0].encode(*a[1:], **k))
        return SymBytes.lit(bytes(*a, **k))
    if not a:
        return SymBytes([])
    x = a[0]
    r = rope_of(x)
    if r is not None:
        return r
    u = unint(x)
    if u is not None and not isinstance(x, bool):
        u = sim(u)
        if isinstance(u, int):
            if u < 0:
                raise ValueError("negative count")
            return SymBytes.lit(bytes(u)) if u <= 1 << 20 else SymBytes.of([Fill(0, u)])
        if not _br(u >= 0):
            raise ValueError("negative count")
        return SymBytes.of([Fill(0, u)])
    if isinstance(x, str) or type(x) is SymStr:
        raise TypeError("string argument without an encoding")
    if type(x) in (SymFloat, SymRatio, SymF64) or isinstance(x, float) or x is None:
        raise TypeError("cannot convert to bytes")
    if hasattr(type(x), "__bytes__") and not isinstance(x, (list, tuple, range)):
        return rope_of(x.__bytes__())
    return V.bytes_from_iter(x)


def shim_bytes(*a, **k):
    return _conc(_mk_bytes(a, k))


def shim_bytearray(*a, **k):
    return SymByteArray(_mk_bytes(a, k))


def shim_memoryview(x):
    if type(x) is SymMemView:
        return SymMemView(x.obj, x.lo, x.n)
    if type(x) in (SymBytes, SymByteArray):
        return SymMemView(x)
    if isinstance(x, bytearray):
        raise Unsupported("memoryview of a concrete bytearray")
    r = rope_of(x)
    if r is None:
        raise TypeError("memoryview: a bytes-like object is required")
    return SymMemView(r)


def shim_from_bytes(b, byteorder="big", *, signed=False):
    r = _mk_bytes((b,), {})
    n = r.n if isinstance(r.n, int) else V.concretize_int(r.n)
    if n == 0:
        return 0
    bs = [r.at(j) for j in range(n)]
    if byteorder == "big":
        bs.reverse()
    return V.le_to_int(bs, signed)


def shim_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def shim_any(it):
    for x in it:
        if x:
            return True
    return False


def shim_all(it):
    for x in it:
        if not x:
            return False
    return True


def shim_minmax(pick):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("empty")
        best = xs[0]
        for x in xs[1:]:
            p, q = (vc_call(key, x), vc_call(key, best)) if key else (x, best)
            if (p < q) if pick == "min" else (p > q):
                best = x
        return best
    return f


def shim_map(f, *its):
    return (vc_call(f, *xs) for xs in zip(*its))


def shim_filter(f, it):
    return (x for x in it if (x if f is None else vc_call(f, x)))


def shim_sorted(it, *, key=None, reverse=False):
    k = (lambda x: vc_call(key, x)) if key else None
    xs = list(it)
    if len(xs) > 1 and any(has_sym(k(x) if k else x) for x in xs):
        raise Unsupported("sorting symbolic data")
    return sorted(xs, key=k, reverse=reverse)


def shim_reduce(f, it, *init):
    it = iter(it)
    x = init[0] if init else next(it)
    for y in it:
        x = vc_call(f, x, y)
    return x


MODEL_NAMES = re.compile(r"(?<![\w.])(Sym[A-Z]\w*|Poison|AnyExc\w*|ArithRef|BoolRef|_NegDiv)\b")


def modelling_error(e):
    """an exception the model caused, not the code"""
    return isinstance(e, TypeError | AttributeError) and bool(MODEL_NAMES.search(str(e)))


def symtxt(*xs):
    """one of the values is text rendered from something symbolic"""
    return any(isinstance(x, str) and V.SYMTXT in x for x in xs)


def vc_eq(a, b):
    if symtxt(a, b):
        raise Unsupported("comparison of the text of a symbolic value")
    return a == b


def vc_ne(a, b):
    if symtxt(a, b):
        raise Unsupported("comparison of the text of a symbolic value")
    return a != b


def shim_print(*a, **k):
    return None


def shim_unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def shim_hash(x):
    return hash(x)


def shim_callable(x):
    return callable(x)


def shim_pow(a, b, *m):
    if V.is_sym(a) or V.is_sym(b):
        if m:
            raise Unsupported("modular pow")
        return a ** b
    return pow(a, b, *m)


class CallIter:
    """iter(function, sentinel)"""
    vc_contract = True     # no state of its own until it is exhausted

    def __init__(self, f, sentinel):
        self.f, self.sentinel, self.done = f, sentinel, False

    def __iter__(self):
        return self

    def __next__(self):
        if self.done:
            raise StopIteration
        x = vc_call(self.f)
        if vc_eq(x, self.sentinel):
            self.done = True
            raise StopIteration
        return x


def shim_iter(*a):
    return CallIter(*a) if len(a) == 2 else iter(*a)


BUILTINS = {
    iter: shim_iter,
    len: shim_len, isinstance: shim_isinstance, issubclass: shim_issubclass, type: shim_type,
    int: shim_int, bool: shim_bool, float: shim_float, str: shim_str, bytes: shim_bytes,
    bytearray: shim_bytearray, memoryview: shim_memoryview, range: shim_range, sum: shim_sum,
    any: shim_any, all: shim_all, min: shim_minmax("min"), max: shim_minmax("max"),
    print: shim_print, open: shim_open, pow: shim_pow, map: shim_map, filter: shim_filter,
    sorted: shim_sorted, _reduce: shim_reduce,
    chr: None, ord: None, hex: None, oct: None, bin: None,
}
NATIVE_OK = {getattr, setattr, hasattr, delattr, iter, next, enumerate, zip, map, filter, sorted,
             reversed, repr, format, id, callable, round, abs, divmod, list, tuple, dict, set,
             frozenset, object, hash, print, slice, property, staticmethod, classmethod, super}
MATH = {math.floor: "__floor__", math.ceil: "__ceil__", math.trunc: "trunc"}
NATIVE_MODULES = {"operator", "copy", "itertools", "functools", "dataclasses", "contextlib",
                  "typing", "typing_extensions", "collections", "_collections", "enum", "abc",
                  "_operator", "types", "warnings", "_warnings"}


def has_sym(a, depth=2):
    if V.is_sym(a) or isinstance(a, (Poison, SymDatetime, SymTimedelta, SymStream, V.SymPieces)):
        return True
    if depth and isinstance(a, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in a)
    if depth and isinstance(a, dict):
        return any(has_sym(x, depth - 1) for x in a.values())
    return False


def enum_call(cls, x):
    """EnumClass(value) for a symbolic value"""
    u = unint(x)
    if u is None:
        raise ValueError(f"not a valid {cls.__qualname__}")
    if type(x) is SymInt and x.cls is cls:
        return x
    if not issubclass(cls, int):
        raise Unsupported("symbolic value of a non-integer enum")
    if issubclass(cls, enum.Flag):
        if cls._boundary_ is not enum.KEEP:
            raise Unsupported("flag enum with a non-KEEP boundary")
        if not _br(ii(u) >= 0):
            raise Unsupported("negative value of a flag enum")
        return mkint(u, cls)
    vals = sorted({m.value for m in cls.__members__.values()})
    conds, run = [], None
    for v in vals:
        if run is not None and v == run[1] + 1:
            run[1] = v
        else:
            run = [v, v]
            conds.append(run)
    member = z3.Or(*[z3.And(ii(u) >= a, ii(u) <= b) if a != b else ii(u) == a
                     for a, b in conds])
    if _br(member):
        return mkint(sim(u), cls)
    missing = cls.__dict__.get("_missing_")
    for base in cls.__mro__[1:]:
        if missing is None and "_missing_" in base.__dict__:
            missing = base.__dict__["_missing_"]
    if missing is not None and getattr(missing, "__func__", None) is not enum.Enum._missing_.__func__:
        r = vc_call(cls._missing_, x)
        if r is not None:
            return r
    raise ValueError(f"not a valid {cls.__qualname__}")


def dict_lookup(d, key, default, has_default):
    """d[key] for a symbolic key: case split over the stored keys, grouped by value"""
    u = unint(key)
    if u is not None and d and all(
            isinstance(v, enum.Enum) and isinstance(v, int) and isinstance(k, int)
            and int(v) == int(k) for k, v in d.items()):
        cls = type(next(iter(d.values())))
        if all(type(v) is cls for v in d.values()):
            if _br(z3.Or(*[ii(u) == int(k) for k in d])):
                return mkint(sim(u), cls)
            if not has_default:
                raise KeyError(key)
            return default
    groups, order = {}, []
    for k, v in d.items():
        if u is None:
            eq = key == k
            if eq is False or eq is NotImplemented:
                continue
            f = core.tobool(eq)
        else:
            if not isinstance(k, int):
                if V.is_sym(k):
                    raise Unsupported("symbolic dict key stored")
                continue
            f = ii(u) == int(k)
        g = id(v)
        if g not in groups:
            groups[g] = (v, [])
            order.append(g)
        groups[g][1].append(f)
    conds = [z3.Or(*groups[g][1]) if len(groups[g][1]) > 1 else groups[g][1][0] for g in order]
    conds = [z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]
    none = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
    w = ctx().choose([*conds, none])
    if w < len(order):
        return groups[order[w]][0]
    if not has_default:
        raise KeyError(key)
    return default


def _dict_method(f, a, k):
    d, n = f.__self__, f.__name__
    if n == "get":
        return dict_lookup(d, a[0], a[1] if len(a) > 1 else None, True)
    if n in ("__getitem__",):
        return dict_lookup(d, a[0], None, False)
    if n == "__contains__":
        return vc_contains(d, a[0])
    if n in ("update", "values", "items", "keys", "copy"):
        return f(*a, **k)
    if n == "setdefault" and not V.is_sym(a[0]):
        return f(*a, **k)
    raise Unsupported(f"dict.{n} with a symbolic argument")


def vc_call(f, /, *a, **k):
    c = core.CTX
    s = c.session if c is not None else None
    if isinstance(f, Poison):
        f._bad()
    if s is not None:
        r = s.intercept(f, a, k)
        if r is not None:
            return r[0]
    try:
        sh = BUILTINS.get(f, BUILTINS)
    except TypeError:
        sh = BUILTINS
    if sh is not BUILTINS:
        if sh is None:
            if any(has_sym(x) for x in a):
                raise Unsupported(f"{f.__name__}() of symbolic data")
            return f(*a, **k)
        return sh(*a, **k)
    if type(f) is functools.partial:
        return vc_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if f is _rdt.datetime or (isinstance(f, type) and issubclass(f, enum.Enum)):
        if isinstance(f, type) and issubclass(f, enum.Enum) and len(a) == 1 and not k \
                and V.is_sym(a[0]):
            return enum_call(f, a[0])
        return f(*a, **k)
    if isinstance(f, types.BuiltinFunctionType) or isinstance(f, types.MethodWrapperType):
        me = getattr(f, "__self__", None)
        if f == int.from_bytes:
            return shim_from_bytes(*a, **k)
        if f == bytes.fromhex or f == dict.fromkeys or f == bytearray.fromhex:
            if any(has_sym(x) for x in a):
                raise Unsupported(f.__name__)
            r = f(*a, **k)
            return SymByteArray(SymBytes.lit(bytes(r))) if isinstance(r, bytearray) else r
        if me is not None and not isinstance(me, (types.ModuleType, type)):
            sym = any(has_sym(x, 3) for x in a) or any(has_sym(x, 3) for x in k.values())
            gen = isinstance(me, (bytes, bytearray)) and f.__name__ == "join"
            if isinstance(me, str) and symtxt(me, *a) and f.__name__ not in ("format", "join"):
                raise Unsupported(f"str.{f.__name__} of the text of a symbolic value")
            if not sym and not gen:
                return f(*a, **k)
            if isinstance(me, (bytes, bytearray)):
                if gen and type(a[0]) is not V.SymPieces:
                    a = (list(a[0]),)
                return _conc(getattr(SymBytes.lit(bytes(me)), f.__name__)(*a, **k))
            if isinstance(me, dict):
                return _dict_method(f, a, k)
            if isinstance(me, (list, set)) or type(me).__name__ in (
                    "generator", "deque", "method-wrapper"):
                return f(*a, **k)
            if isinstance(me, str):
                if f.__name__ == "format":
                    return f(*a, **k)
                if f.__name__ == "join":
                    return V.SYMTXT + "<symbolic>"
                raise Unsupported(f"str.{f.__name__} with a symbolic argument")
            if type(me).__module__ in NATIVE_MODULES:
                return f(*a, **k)
            raise Unsupported(f"{type(me).__name__}.{f.__name__} with a symbolic argument")
        if f in NATIVE_OK:
            return f(*a, **k)
        if s is not None:
            w = world(f, a, k)
            if w is not None:
                return w[0]
        if f in MATH and len(a) == 1 and not k and type(a[0]) in (SymInt, SymBool, SymRatio):
            x = a[0]
            return mkint(unint(x)) if type(x) is not SymRatio else getattr(x, MATH[f])()
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if getattr(f, "__module__", None) in NATIVE_MODULES:
                return f(*a, **k)
            raise Unsupported(f"native call {getattr(f, '__qualname__', f)} of symbolic data")
        return f(*a, **k)
    if isinstance(f, types.FunctionType | types.MethodType):
        mod = getattr(f, "__module__", "") or ""
        if mod.split(".")[0] == "logging":
            return None
        fn = f.__func__ if isinstance(f, types.MethodType) else f
        own = mod.split(".")[0] in ("vblf", "pyvc") or mod in NATIVE_MODULES \
            or isinstance(fn, types.FunctionType) and fn.__globals__.get("__vc_own__") \
            or type(getattr(f, "__self__", None)).__module__.startswith(("pyvc", "vblf"))
        if not own and s is not None:
            w = world(f, a, k)
            if w is not None:
                return w[0]
        if not own and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            raise Unsupported(f"call of {mod}.{f.__qualname__} with symbolic data")
        if s is not None:
            s.functions.add(f"{mod}.{f.__qualname__}")
        return f(*a, **k)
    if isinstance(f, type):
        if f.__module__ == "builtins" and f not in NATIVE_OK and not issubclass(f, BaseException):
            if any(has_sym(x) for x in a):
                raise Unsupported(f"{f.__name__}() of symbolic data")
        return f(*a, **k)
    if isinstance(f, types.MethodDescriptorType):
        # unbound builtin method, e.g. bytes.join(sep, it)
        if a and V.is_sym(a[0]):
            return vc_call(getattr(a[0], f.__name__), *a[1:], **k)
        if a:
            return vc_call(getattr(a[0], f.__name__), *a[1:], **k)
    return f(*a, **k)


def vc_getitem(o, i):
    if isinstance(o, Poison) or isinstance(i, Poison):
        raise Unsupported("use of a loop-havocked value")
    if symtxt(o, i):
        raise Unsupported("text of a symbolic value")
    if type(o) in (SymBytes, SymByteArray, SymStr, SymMemView):
        r = o[i]
        return _conc(r) if type(r) is SymBytes else r
    if isinstance(o, dict) and V.is_sym(i):
        return dict_lookup(o, i, None, False)
    sl = isinstance(i, slice)
    symi = V.is_sym(i) or (sl and any(V.is_sym(x) for x in (i.start, i.stop, i.step)))
    if symi and isinstance(o, (bytes, bytearray)):
        r = SymBytes.lit(bytes(o))[i]
        return _conc(r) if type(r) is SymBytes else r
    if symi and isinstance(o, (list, tuple)) and not sl:
        n = len(o)
        k = V.norm_index(i, n)
        return o[V.concretize_int(k) if not isinstance(k, int) else k]
    if isinstance(o, type) and issubclass(o, enum.Enum):
        return o[i]
    return o[i]


def vc_mod(a, b):
    """a % b: bytes and text formatting of symbolic values"""
    if isinstance(b, Poison):
        b._bad()
    if isinstance(a, str) and has_sym(b, 3):
        if re.fullmatch(r"([^%]|%[dis])*", a):
            t = b if isinstance(b, tuple) else (b,)
            return a.replace("%d", "%s").replace("%i", "%s") % tuple(
                format(x) if type(x) is SymInt else x for x in t)
        return V.SYMTXT + "<symbolic>"
    if isinstance(a, (bytes, bytearray)) and has_sym(b, 3):
        args = list(b) if isinstance(b, tuple) else [b]
        segs, i = [], 0
        while i < len(a):
            j = a.find(b"%", i)
            if j < 0:
                segs.append(Lit(bytes(a[i:])))
                break
            if j > i:
                segs.append(Lit(bytes(a[i:j])))
            c = bytes(a[j + 1 : j + 2])
            if c == b"%":
                segs.append(Lit(b"%"))
            elif c in (b"b", b"s"):
                if not args:
                    raise TypeError("not enough arguments for format string")
                x = args.pop(0)
                r = rope_of(x)
                if r is None:
                    if hasattr(type(x), "__bytes__") and not V.is_sym(x):
                        r = rope_of(x.__bytes__())
                    else:
                        raise TypeError("%b requires a bytes-like object")
                segs += r.segs
            else:
                raise Unsupported("bytes format directive")
            i = j + 2
        if args:
            raise TypeError("not all arguments converted during bytes formatting")
        res = SymBytes.of(segs)
        return SymByteArray(res) if isinstance(a, bytearray) else _conc(res)
    return a % b


def vc_slice(a, b, c):
    return slice(a, b, c)


def vc_contains(c, x):
    if isinstance(c, Poison) or isinstance(x, Poison):
        raise Unsupported("use of a loop-havocked value")
    if symtxt(c, x):
        raise Unsupported("text of a symbolic value")
    if type(c) in (SymBytes, SymByteArray, SymMemView):
        return x in c
    if V.is_sym(x) or (isinstance(c, (list, tuple)) and has_sym(c)):
        if isinstance(c, type) and issubclass(c, enum.Enum):
            u = unint(x)
            if u is None:
                return False
            return bool(mkbool(z3.Or(*[ii(u) == int(m.value) for m in c.__members__.values()])))
        if isinstance(c, (bytes, bytearray)):
            u = unint(x)
            if u is None:
                raise Unsupported("substring test")
            return bool(mkbool(z3.Or(*[ii(u) == b for b in sorted(set(c))])))
        if isinstance(c, range) and c.step == 1:
            u = unint(x)
            return bool(mkbool(z3.And(ii(u) >= c.start, ii(u) < c.stop)))
        if unint(x) is not None and isinstance(c, (dict, set, frozenset, list, tuple)) \
                and c and all(isinstance(k, int) for k in c):
            u = unint(x)
            return bool(mkbool(z3.Or(*[ii(u) == int(k) for k in c])))
        if isinstance(c, (dict, set, frozenset, list, tuple)) or type(c).__name__ in (
                "dict_keys", "dict_values", "mappingproxy"):
            for k in c:
                if k is x:
                    return True
                e = k == x
                if e is NotImplemented:
                    continue
                if e:
                    return True
            return False
        if isinstance(c, str):
            raise Unsupported("substring test")
    return x in c


def vc_is(a, b):
    for x in (a, b):
        if isinstance(x, Poison):
            x._bad()
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if type(x) is AnyExc:
            return x.is_(y)
        if y is None and V.is_sym(x):
            return False
        if type(x) is SymInt and V.unint(y) is not None:
            cy = y.cls if type(y) is SymInt else (type(y) if isinstance(y, enum.Enum) else None)
            if x.cls is None and cy is None:
                raise Unsupported("identity of integers")
            if x.cls is not cy:
                return False
            return mkbool(z3.simplify(x.t == ii(unint(y))))
        if type(x) is SymBool and isinstance(y, bool):
            return mkbool(x.t if y else z3.Not(x.t))
    if V.is_sym(a) or V.is_sym(b):
        if type(a) in (SymBytes, SymStr) and type(b) in (SymBytes, SymStr, bytes, str):
            raise Unsupported("identity of byte strings")
        return False
    return a is b


def vc_isseq(x):
    return isinstance(x, (list, tuple, range)) or type(x).__name__ == "deque"


def vc_ismap(x):
    return isinstance(x, (dict, types.MappingProxyType))


def vc_matchattr(x, cls, k):
    """the value the k-th positional sub-pattern (or attribute k) of a class pattern sees, in a list"""
    if isinstance(k, str):
        return [getattr(x, k)] if hasattr(x, k) else None
    if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
        return [x] if k == 0 else None
    n = getattr(cls, "__match_args__", ())[k]
    return [getattr(x, n)] if hasattr(x, n) else None


def vc_guard():
    e = sys.exc_info()[1]
    if isinstance(e, (PathEnd, Unsupported)):
        raise e
    if core.CTX is not None and core.CTX.dead:
        raise PathEnd()
    if e is not None and modelling_error(e):
        raise Unsupported(f"{type(e).__name__}: {e}") from e


# ----------------------------------------------------------------- loops
MAX_NATIVE_ITERS = 300


class Loop:
    def __init__(self, where, names, it=None, is_for=False):
        self.where, self.names = where, names
        self.count = 0
        self.is_for = is_for
        self.iterator = self.iterable = None
        self.pending = None
        self.frame = sys._getframe(2)
        c = core.CTX
        self.session = c.session if c is not None else None
        if is_for:
            if isinstance(it, Poison):
                it._bad()
            self.iterable = it
            self.iterator = iter(it)
        self.rule = None
        if self.session is not None:
            self.rule = self.session.loop_rule(self)

    def head(self, loc):
        self.count += 1
        if core.CTX is not None and core.CTX.dead:
            raise PathEnd()
        if self.rule is not None:
            return self.rule.head(self, {k: v for k, v in loc.items()
                                         if not k.startswith("__vc_") and "__vc_" not in k})
        if self.count > MAX_NATIVE_ITERS:
            raise Unsupported(f"loop without invariant at {self.where}")
        return None

    def more(self):
        if getattr(self.rule, "range", None) is not None:
            return self.rule.more(self)
        try:
            self.pending = next(self.iterator)
            return True
        except StopIteration:
            return False

    def next(self):
        if getattr(self.rule, "range", None) is not None:
            return self.rule.next(self)
        return self.pending

    def exit(self):
        if self.rule is not None and core.CTX is not None and not core.CTX.dead:
            self.rule.exit(self)


def vc_loop(where, names):
    return Loop(where, names)


def vc_for(where, names, it):
    return Loop(where, names, it, True)


HOOKS = {
    "__vc_call__": vc_call, "__vc_getitem__": vc_getitem, "__vc_slice__": vc_slice,
    "__vc_contains__": vc_contains, "__vc_mod__": vc_mod, "__vc_is__": vc_is, "__vc_eq__": vc_eq, "__vc_ne__": vc_ne,
    "__vc_isseq__": vc_isseq, "__vc_ismap__": vc_ismap, "__vc_matchattr__": vc_matchattr,
    "__vc_guard__": vc_guard,
    "__vc_loop__": vc_loop, "__vc_for__": vc_for,
}


class Session:
    """per-path verification session; subclasses add contracts and loop rules"""

    def __init__(self, c):
        self.c = c
        self.functions = set()
        self.contracts_used = set()
        self.stubs = {}

    def intercept(self, f, a, k):
        if self.stubs:
            fn = getattr(f, "__func__", f)
            st = self.stubs.get(fn) if isinstance(fn, types.FunctionType) else None
            if st is not None:
                self.contracts_used.add(f"{fn.__module__}.{fn.__qualname__}")
                if hasattr(f, "__func__"):
                    return (st(f.__self__, *a, **k),)
                return (st(*a, **k),)
        return None

    def loop_rule(self, loop):
        return None

    def open_file(self, file, mode="r", *a, **k):
        raise Unsupported("open()")
