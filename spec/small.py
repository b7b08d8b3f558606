"""Contracts of the small parts: code conversions, calendar conversions, factories, opening."""
import datetime as rdt
import pathlib

import z3

from pyvc import core, shims
from pyvc import values as V
from pyvc.core import PathEnd, Unsupported
from pyvc.values import (Fill, SymBytes, SymInt, ii, isub, mkint, rope_of, sim, unint)
from spec import codec as C
from spec import layout as L


# ----------------------------------------------------------------- C01, C02
BAD_1252 = (0x81, 0x8D, 0x8F, 0x90, 0x9D)


def drv_text_tables(tag):
    """what the model of texts says about the codecs, decided over their complete tables"""
    def run(c):
        c.cover("text codecs")
        table = {}
        for b in range(256):
            try:
                table[b] = bytes([b]).decode("cp1252")
            except UnicodeDecodeError:
                pass
        c.prove("cp1252 decodes every byte but five", tuple(
            b for b in range(256) if b not in table) == BAD_1252, tag)
        c.prove("cp1252 maps a byte to one character and back to that byte", all(
            len(t) == 1 and t.encode("cp1252") == bytes([b]) for b, t in table.items()), tag)
        c.prove("cp1252 keeps ASCII", all(ord(table[b]) == b for b in range(128)), tag)
        # utf-8: a code, one word per character, told apart by its first byte
        lead = {}
        good = True
        for p in range(0x110000):
            if 0xD800 <= p < 0xE000:
                continue
            w = chr(p).encode()
            n = lead.setdefault(w[0], len(w))
            good = good and n == len(w) <= 4 and w.decode() == chr(p)
        c.prove("utf-8 maps each character to its own word and back", good, tag)
        c.prove("the first byte of a utf-8 word gives its length", all(
            (b < 0x80) == (n == 1) and (b < 0x80 or b >= 0xC2) for b, n in lead.items()), tag)

        def decodes(w):
            try:
                return w.decode()
            except UnicodeDecodeError:
                return None
        words = [bytes([a]) for a in range(256)]
        words += [bytes([a, b]) for a in range(0x80, 256) for b in range(256)]
        words += [bytes([a, b, d]) for a in range(0xE0, 0xF0) for b in range(256)
                  for d in range(0x7E, 0xC2)]
        words += [bytes([a, b, d, e]) for a in range(0xF0, 0xF8) for b in range(0x7E, 0xC2)
                  for d in (0x7F, 0x80, 0x81, 0xBF, 0xC0) for e in range(0x7E, 0xC2)]
        c.prove("utf-8 accepts no other spelling of a character", all(
            t is None or t.encode() == w for w in words for t in (decodes(w),)), tag)
    return run


# ----------------------------------------------------------------- C17
def drv_from_int(ename, width, tag):
    def run(c):
        E = C.klass(ename)
        u = V.fresh_int("code", 0, (1 << (8 * width)) - 1)
        c.cover(f"{ename}.from_int")
        r = C.call(c, f"{ename}.from_int", tag, E.from_int, u)
        C.prove_all(c, f"{ename}.from_int", C.match("result", r, f"u{width}:{ename}", u.t), tag)
    return run


def codes_only(path, o, sname, exp):
    out = []
    for n, _o, t in L.STRUCTS[sname][2]:
        kind, _w, x = L.parse_type(t)
        a = getattr(o, n, None)
        if kind == "struct":
            out += codes_only(f"{path}.{n}", a, x, exp[n])
        elif kind == "enum" and x in ("ObjType", "AppId", "Compression"):
            out += C.match(f"{path}.{n}", a, t, exp[n])
    return out


def drv_codes(sname, meth, tag):
    size = L.STRUCTS[sname][1]

    def run(c):
        cls = C.klass(sname)
        what = f"{sname}.{meth}"
        if meth == "unpack":
            b, off = V.fresh_bytes("buffer", size), 0
            args = (b,)
        else:
            b = V.fresh_bytes("buffer")
            off = V.fresh_int("offset", 0)
            c.assume(off.t + size <= ii(b.n))
            args, off = (b, off), off.t
        c.cover(what)
        o = C.call(c, what, tag, getattr(cls, meth), *args)
        C.prove_all(c, what, codes_only("", o, sname, C.dec("=" + sname, b, off)), tag)
    return run


def drv_opaque_codes(tag):
    def run(c):
        b = V.fresh_bytes("record")
        c.assume(ii(b.n) >= 16)
        c.cover("NotImplementedObject")
        o = C.call(c, "NotImplementedObject.unpack", tag,
                   C.klass("NotImplementedObject").unpack, b)
        base = getattr(getattr(o, "header", None), "base", None)
        C.prove_all(c, "NotImplementedObject.unpack", codes_only(
            "header.base", base, "ObjectHeaderBase", C.dec("=ObjectHeaderBase", b, 0)), tag)
    return run


# ----------------------------------------------------------------- C13
def ms_spec(us):
    q, r = us / 1000, us % 1000
    n = q + z3.If(z3.Or(r > 500, z3.And(r == 500, q % 2 == 1)), z3.IntVal(1), z3.IntVal(0))
    return z3.If(n > 999, z3.IntVal(999), n)


DATE_FIELDS = ("year", "month", "day", "hour", "minute", "second")


def time_goals(what, s, d):
    """s is the stored form of the date-time d"""
    ST = C.klass("SystemTime")
    if type(s) is not ST:
        return [(f"{what} is a SystemTime", False)]
    out = []

    def eq(n, v):
        u = unint(getattr(s, n, None))
        out.append((f"{what}.{n}", False if u is None else ii(u) == v))
    for n in DATE_FIELDS:
        eq(n, ii(unint(getattr(d, n))))
    wd = ii(unint(d.weekday()))
    eq("day_of_week", (wd + 1) % 7)
    eq("milliseconds", ms_spec(ii(unint(d.microsecond))))
    return out


def drv_from_datetime(tz, tag):
    def run(c):
        c.session.exact_calendar = True
        d = shims.SymDatetime.fresh("dt", tz, inp=True)
        c.cover("SystemTime.from_datetime")
        s = C.call(c, "SystemTime.from_datetime", tag, C.klass("SystemTime").from_datetime, d)
        C.prove_all(c, "SystemTime.from_datetime", time_goals("result", s, d), tag)
    return run


def drv_from_now(tag):
    def run(c):
        c.session.exact_calendar = True
        c.cover("SystemTime.from_datetime()")
        s = C.call(c, "SystemTime.from_datetime()", tag, C.klass("SystemTime").from_datetime)
        memo = getattr(c, "ts_memo", [])
        ds = [d for k, _x, d in memo if k == "utc"]
        if not ds:
            c.prove("SystemTime.from_datetime(): uses the current UTC time", False, tag)
            return
        C.prove_all(c, "SystemTime.from_datetime()", time_goals("result", s, ds[-1]), tag)
    return run


def stored_time(c, with_weekday, ms=999):
    vals = {}
    for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23),
                      ("minute", 0, 59), ("second", 0, 59), ("milliseconds", 0, ms),
                      ("day_of_week", 0, 6)):
        vals[n] = V.fresh_int(n, lo, hi)
    c.add(shims.date_ok(vals["year"].t, vals["month"].t, vals["day"].t))
    if with_weekday:
        w = shims.weekday_term(vals["year"].t, vals["month"].t, vals["day"].t)
        vals["day_of_week"] = V.mkint((w + 1) % 7)
    return C.build("SystemTime", vals), vals


def drv_to_datetime(tag, ms=999):
    def run(c):
        o, vals = stored_time(c, False, ms)
        s0 = C.snapshot(o)
        c.cover("SystemTime.to_datetime")
        d = C.call(c, "SystemTime.to_datetime", tag, o.to_datetime)
        if type(d) is not shims.SymDatetime:
            c.prove("SystemTime.to_datetime: returns a date-time", False, tag)
            return
        for n in DATE_FIELDS:
            c.prove(f"SystemTime.to_datetime: {n}", ii(unint(getattr(d, n))) == vals[n].t, tag)
        us = ii(unint(d.microsecond))
        want = vals["milliseconds"].t * 1000
        c.prove("SystemTime.to_datetime: milliseconds",
                us == z3.If(want > 999999, z3.IntVal(999999), want), tag)
        c.prove("SystemTime.to_datetime: at most 999999 microseconds", us <= 999999, tag)
        C.prove_all(c, "SystemTime.to_datetime leaves", C.same("self", s0, C.snapshot(o)), tag)
    return run


def drv_time_roundtrip(tag):
    def run(c):
        c.session.exact_calendar = True
        o, _vals = stored_time(c, True)
        s0 = C.snapshot(o)
        c.cover("stored time to date-time and back")
        d = C.call(c, "SystemTime.to_datetime", tag, o.to_datetime)
        s = C.call(c, "SystemTime.from_datetime", tag, C.klass("SystemTime").from_datetime, d)
        C.prove_all(c, "from_datetime(to_datetime(s))", C.same("s", s0, C.snapshot(s)), tag)
    return run


# ----------------------------------------------------------------- C14
FACTORIES = {
    "CanMessage": (["channel", "flags", "dlc", "frame_id"], "data", 8),
    "CanMessage2": (["channel", "flags", "dlc", "frame_id", "frame_length", "bit_count"],
                    "data", 8),
    "CanFdMessage": (["channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count",
                      "canfd_flags"], "data", 64),
}
# what the factory fills in itself
FILLED = {"CanMessage": {}, "CanMessage2": {"reserved1": 0, "reserved2": 0},
          "CanFdMessage": {"reserved1": 0, "reserved2": 0, "reserved3": 0}}


def padded(r, cap):
    return SymBytes.of([*r.segs, Fill(0, isub(cap, r.n))])


def header_goals(h, sname, size, code, flags, ts, version=None, client=None):
    H = C.klass("ObjectHeader")
    if type(h) is not H:
        return [("header is an ObjectHeader", False)]
    b = h.base
    out = C.match("header.base.signature", getattr(b, "signature", None), "s4",
                  SymBytes.lit(b"LOBJ"))

    def eq(n, o, v):
        u = unint(o)
        out.append((n, False if u is None else ii(u) == ii(v)))
    eq("header.base.header_size", b.header_size, 32)
    eq("header.base.header_version", b.header_version, 1)
    eq("header.base.object_size is the encoded length", b.object_size, size)
    if isinstance(code, int):
        eq("header.base.object_type", b.object_type, code)
    else:
        eq("header.base.object_type", b.object_type, code)
    eq("header.object_flags", h.object_flags, flags)
    eq("header.object_time_stamp", h.object_time_stamp, ts)
    if version is not None:
        eq("header.object_version", h.object_version, version)
    if client is not None:
        eq("header.client_index", h.client_index, client)
    return out


def drv_factory(name, tag):
    rec = L.RECORDS[name]
    fs, dn, cap = FACTORIES[name]

    def run(c):
        types = {n: t for n, _o, t in rec.fields}
        kw = {n: C.fresh_val(n, types[n]) for n in fs}
        flags = V.fresh_int("object_flags", 0, 2**32 - 1, cls=C.klass("ObjFlags"))
        ts = V.fresh_int("object_time_stamp", 0, 2**64 - 1)
        data = V.fresh_bytes(dn)
        c.assume(ii(data.n) <= cap)
        what = f"{name}.new"
        c.cover(what)
        o = C.call(c, what, tag, C.klass(name).new, object_flags=flags, object_time_stamp=ts,
                   **kw, **{dn: data})
        if type(o) is not C.klass(name):
            c.prove(f"{what}: returns a {name}", False, tag)
            return
        s0 = C.snapshot(o)
        p = rope_of(C.call(c, what + " then pack", tag, o.pack))
        if p is None:
            c.prove(f"{what}: pack returns bytes", False, tag)
            return
        c.prove(f"{what}: encoded length", ii(p.n) == rec.fixed, tag)
        C.prove_all(c, what, header_goals(o.header, "ObjectHeader", p.n, rec.codes[0], flags.t,
                                          ts.t), tag)
        for n in fs:
            C.prove_all(c, what, C.match(n, getattr(o, n, None), types[n].split(":")[0],
                                         kw[n].t), tag)
        a = rope_of(getattr(o, dn, None))
        pd = padded(data, cap)
        c.prove(f"{what}: data is the given payload, padded or not", False if a is None else z3.Or(
            _b(V.rope_eq_goal(a, data)), _b(V.rope_eq_goal(a, pd))), tag)
        vals = {n: 0 for n, _o, t in rec.fields}
        vals.update(kw)
        vals.update(FILLED[name])
        vals[dn] = pd
        if name == "CanFdMessage":
            vals["valid_data_bytes"] = mkint(data.n)
        for n, o_, t in rec.fields:
            w = _width(t)
            c.prove(f"{what}: encodes {n} at {o_}", V.rope_eq_goal(
                p.slice_terms(o_, w), C.enc(t, vals[n])), tag)
        C.prove_all(c, what + ": pack leaves", C.same("o", s0, C.snapshot(o)), tag)
        u = C.call(c, what + " read back", tag, C.klass(name).unpack, p)
        for n, o_, t in rec.fields:
            exp = vals[n] if n == dn else (ii(unint(vals[n])) if not isinstance(
                vals[n], (list, tuple)) else [ii(unint(x)) for x in vals[n]])
            C.prove_all(c, what + ": read back", C.match(n, getattr(u, n, None), t, exp), tag)
        C.prove_all(c, what + ": read back", header_goals(
            u.header, "ObjectHeader", rec.fixed, rec.codes[0], flags.t, ts.t), tag)
    return run


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _width(t):
    kind, w, x = L.parse_type(t)
    return w * (x if kind in ("list", "tuple") else 1)


def drv_header_new(tag):
    def run(c):
        size = V.fresh_int("object_size", 0, 2**32 - 1)
        ot = C.fresh_val("object_type", "u4:ObjType")
        fl = V.fresh_int("object_flags", 0, 2**32 - 1, cls=C.klass("ObjFlags"))
        ver = V.fresh_int("object_version", 0, 2**16 - 1)
        ts = V.fresh_int("object_time_stamp", 0, 2**64 - 1)
        c.cover("ObjectHeader.new")
        h = C.call(c, "ObjectHeader.new", tag, C.klass("ObjectHeader").new, size, ot, fl, ver, ts)
        C.prove_all(c, "ObjectHeader.new", header_goals(
            h, "ObjectHeader", size.t, ot.t, fl.t, ts.t, ver.t), tag)
        p = rope_of(C.call(c, "ObjectHeader.new then pack", tag, h.pack))
        c.prove("ObjectHeader.new: encodes to 32 bytes", False if p is None else ii(p.n) == 32,
                tag)
    return run


def drv_container_new(mode, tag):
    def run(c):
        data = V.fresh_bytes("data")
        c.assume(ii(data.n) <= 2**32 - 1 - 32)
        ts = V.fresh_int("time_stamp", 0, 2**64 - 1)
        kw = {}
        fl, ci = 2, 0
        if mode >= 1:
            fl = V.fresh_int("flags", 0, 2**32 - 1, cls=C.klass("ObjFlags"))
            kw["flags"] = fl
        if mode == 2:
            ci = V.fresh_int("client_index", 0, 2**16 - 1)
            kw["client_index"] = ci
        what = "LogContainer.new"
        c.cover(what)
        o = C.call(c, what, tag, C.klass("LogContainer").new, data, ts, **kw)
        p = rope_of(C.call(c, what + " then pack", tag, o.pack))
        if p is None:
            c.prove(f"{what}: pack returns bytes", False, tag)
            return
        C.prove_all(c, what, header_goals(o.header, "ObjectHeader", p.n, 10, unint(fl), ts.t,
                                          client=unint(ci)), tag)
        c.prove(f"{what}: encoded length", ii(p.n) == 32 + ii(data.n), tag)
        c.prove(f"{what}: payload", V.rope_eq_goal(
            p.slice_terms(32, data.n), data), tag)
        u = C.call(c, what + " read back", tag, C.klass("LogContainer").unpack, p)
        C.prove_all(c, what + ": read back", header_goals(
            u.header, "ObjectHeader", p.n, 10, unint(fl), ts.t, client=unint(ci)), tag)
        C.prove_all(c, what + ": read back", C.match_extra("data", u.data, "bytes", data), tag)
    return run


def drv_stats_new(tag):
    def run(c):
        what = "FileStatistics.new"
        c.cover(what)
        s = C.call(c, what, tag, C.klass("FileStatistics").new)
        C.prove_all(c, what, stats_new_goals(s), tag)
        s0 = C.snapshot(s)
        p = C.call(c, what + " then pack", tag, s.pack)
        r = rope_of(p)
        c.prove(f"{what}: encodes to 144 bytes", False if r is None else ii(r.n) == 144, tag)
        u = C.call(c, what + " read back", tag, C.klass("FileStatistics").unpack, p)
        C.prove_all(c, what + ": read back", C.same("s", s0, C.snapshot(u)), tag)
    return run


def stats_new_goals(s):
    if type(s) is not C.klass("FileStatistics"):
        return [("result is a FileStatistics", False)]
    out = C.match("signature", s.signature, "s4", SymBytes.lit(b"LOGG"))
    for n, v in (("statistics_size", 144), ("file_size", 144), ("uncompressed_file_size", 144),
                 ("object_count", 0)):
        u = unint(getattr(s, n, None))
        out.append((n, False if u is None else ii(u) == v))
    return out


# ----------------------------------------------------------------- C12
class OpenSession(C.CodecSession):
    """open() gives a stream over `content`; the calls are recorded"""

    def __init__(self, c, proved, box):
        super().__init__(c, proved)
        self.box = box
        self.opened = []

    def open_file(self, file, mode="r", *a, **k):
        if a or set(k) - {"buffering", "mode"}:
            raise Unsupported("open() options")
        mode = k.get("mode", mode)
        self.opened.append((file, mode))
        if mode != "rb" or self.box.get("stream") is not None:
            raise Unsupported(f"open() with mode {mode!r}")
        self.box["stream"] = shims.SymStream(self.box["content"], 0, "file", "rb")
        return self.box["stream"]


class PathLike:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def paths():
    return {"str": "/nonexistent/x.blf", "bytes": b"/nonexistent/x.blf",
            "pathlib": pathlib.PurePosixPath("/nonexistent/x.blf"),
            "os.PathLike": _RealPathLike()}


import os as _ros  # noqa: E402


class _RealPathLike(_ros.PathLike):
    def __fspath__(self):
        return "/nonexistent/x.blf"


class Duck:
    """the least a readable binary stream can be: no base class, no other methods"""

    def __init__(self, stream):
        self._vc_stream = stream

    def read(self, n=-1):
        return self._vc_stream.read(n)

    def seek(self, offset, whence=0):
        return self._vc_stream.seek(offset, whence)

    def tell(self):
        return self._vc_stream.tell()

    def close(self):
        self._vc_stream.close()


def open_unit(kind, proved, tag):
    """BlfReader(x) for x a stream of arbitrary content, or a path to such a file"""
    def fn(opts):
        box = {}

        def session(c):
            box.clear()
            return OpenSession(c, proved, box)

        def run(c):
            content = V.fresh_bytes("content")
            box["content"] = content
            if kind in ("file", "mem", "duck"):
                arg = box["stream"] = shims.SymStream(
                    content, 0, "file" if kind == "duck" else kind, "rb")
                if kind == "duck":
                    arg = Duck(arg)
            else:
                arg = paths()[kind]
            what = f"BlfReader({kind})"
            c.cover(what)
            R = C.mod("reader").BlfReader
            r, e = C.attempt(R, arg)
            sig = [content.at(k) == b for k, b in enumerate(b"LOGG")]
            valid = z3.And(ii(content.n) >= 144, *sig)
            if e is not None:
                c.prove(f"{what}: raises only ValueError for content"
                        f"{'' if isinstance(e, ValueError) else ': ' + type(e).__name__}",
                        isinstance(e, ValueError), tag, detail=repr(e)[:100])
                c.prove(f"{what}: accepts every valid content", z3.Not(valid), tag)
                return
            c.prove(f"{what}: accepts only valid content", valid, tag)
            st = getattr(r, "file_statistics", None)
            C.prove_all(c, what, C.match("file_statistics", st, "=FileStatistics",
                                         C.dec("=FileStatistics", content, 0)), tag)
            if kind not in ("file", "mem", "duck"):
                op = c.session.opened
                c.prove(f"{what}: opens exactly the given path", len(op) == 1 and _path_eq(
                    op[0][0], arg), tag)
        return core.explore(f"BlfReader({kind})", run, opts, session)
    return fn


def drv_reader_block(tag):
    """leaving the reader's block closes its file and swallows nothing, at any time"""
    def run(c):
        content = V.fresh_bytes("content")
        what = "the reader's with-block"
        c.add(z3.And(ii(content.n) >= 144,
                     *[content.at(k) == b for k, b in enumerate(b"LOGG")]))
        f = shims.SymStream(content, 0, "file", "rb")
        c.cover(what)
        r = C.call(c, what, tag, C.mod("reader").BlfReader, f)
        e_, e = C.attempt(r.__enter__)
        c.prove(f"{what}: entering raises nothing", e is None, tag, detail=repr(e)[:100])
        c.prove(f"{what}: entering gives the reader", e_ is r, tag)
        c.prove(f"{what}: entering leaves the file open", not f.is_closed, tag)
        if f.is_closed or e is not None:
            return
        # any state reading may have left behind
        for k, v in vars(r).items():
            if isinstance(v, bytes) or type(v) is SymBytes:
                object.__setattr__(r, k, V.fresh_bytes(k, inp=False))
            elif isinstance(v, bool) or type(v) is V.SymBool:
                object.__setattr__(r, k, V.SymBool(z3.Bool(c.fresh(k))))
            elif v is not None and V.unint(v) is not None:
                object.__setattr__(r, k, V.fresh_int(k, 0, inp=False))
        f.pos = V.fresh_int("pos", 0, inp=False).t
        for turn in ("leaving", "leaving again"):
            if c.branch(z3.Bool(c.fresh("by_exception"))):
                from spec.writer import any_exception
                got, e = C.attempt(r.__exit__, *any_exception())
            else:
                got, e = C.attempt(r.__exit__, None, None, None)
            c.prove(f"{what}: {turn} raises nothing", e is None, tag, detail=repr(e)[:100])
            if e is not None:
                return
            c.prove(f"{what}: {turn} swallows no exception", not got, tag)
            c.prove(f"{what}: {turn} leaves the file closed", f.is_closed, tag)
            if not f.is_closed:
                return
    return run


def _path_eq(a, b):
    try:
        return _ros.fsencode(a) == _ros.fsencode(b)
    except TypeError:
        return False


def drv_open_type(tag):
    """anything else is a TypeError"""
    class Thing:
        pass

    def run(c):
        kinds = [None, V.fresh_int("n"), 3.5, object(), [b"LOGG"], {"read": 1}, ("x",), Thing(),
                 Thing, {1}, bytearray, range(3), V.SymBool(z3.Bool(c.fresh("b"))),
                 V.SymF64(SymBytes.of([V.Byte(x) for x in [V.fresh_bytes("f", 8).at(k)
                                                          for k in range(8)]]).segs)]
        c.cover("BlfReader(other)")
        k = c.choose([z3.BoolVal(True)] * len(kinds))
        x = kinds[k]
        _r, e = C.attempt(C.mod("reader").BlfReader, x)
        c.prove(f"BlfReader({type(x).__name__}) raises TypeError", isinstance(e, TypeError), tag,
                detail=repr(e)[:100])
    return run
