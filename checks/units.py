"""The proof units (contracts to discharge) behind each property."""
import datetime
import signal
import time

from pyvc import core
from spec import codec as C
from spec import layout as L
from spec import lemmas as LM
from spec import reader as R
from spec import small as S
from spec import writer as W


class Unit:
    def __init__(self, id, fn, tags=None, **meta):
        self.id, self.fn, self.tags, self.meta = id, fn, tags, meta


def record_unit(prop, name, variant, drv, what, proved):
    rec = L.RECORDS[name]

    def fn(opts):
        return core.explore(f"{name}[{variant}] {what}", drv(rec, variant, prop), opts,
                            lambda c: C.CodecSession(c, proved))
    return Unit(f"{name}[{variant}] {what}", fn, kind=what, cls=name, variant=variant)


def simple(id, drv, proved=(), session=None, **meta):
    def fn(opts):
        return core.explore(id, drv, opts, session or (lambda c: C.CodecSession(c, proved)))
    return Unit(id, fn, **meta)


def units(prop, proved, opts):
    out = []
    if prop == "C01":
        for n, v in C.record_units():
            out.append(record_unit(prop, n, v, C.drv_bytes_roundtrip, "bytes-roundtrip", proved))
        out.append(simple("NotImplementedObject", C.drv_opaque(prop), proved, kind="opaque"))
        out.append(simple("text codecs", S.drv_text_tables(prop)))
    elif prop == "C02":
        out.append(simple("text codecs", S.drv_text_tables(prop)))
        for n, v in C.record_units():
            out.append(record_unit(prop, n, v, C.drv_object_roundtrip, "object-roundtrip",
                                   proved))
    elif prop == "C03":
        for s, m in C.embedded_units():
            out.append(simple(f"{s}.{m}", C.drv_embedded(s, m, prop), inner(proved, s),
                              kind="struct", struct=s, method=m))
        for n, v in C.record_units():
            out.append(record_unit(prop, n, v, C.drv_read, "read", proved))
            out.append(record_unit(prop, n, v, C.drv_write, "write", proved))
    elif prop == "C04":
        for s, m in C.embedded_units():
            if s in L.EMBEDDED and m in ("unpack_from", "pack_into"):
                out.append(simple(f"{s}.{m}", C.drv_embedded(s, m, prop), inner(proved, s),
                                  kind="emb", struct=s, method=m))
    elif prop == "C05":
        out += reader_units(proved, {"dispatch"}, [("file", "iter"), ("mem", "read")])
        out.append(simple("NotImplementedObject", C.drv_opaque(prop), proved, kind="opaque"))
    elif prop == "C06":
        out += reader_units(proved, {"frame", "raise"},
                            [(k, h) for k in ("file", "mem") for h in ("iter", "read")])
    elif prop == "C12":
        for k in ("file", "mem", "duck", "str", "bytes", "pathlib", "os.PathLike"):
            out.append(Unit(f"BlfReader({k})", S.open_unit(k, proved, prop), kind="open", via=k))
        out.append(simple("BlfReader(other)", S.drv_open_type(prop), proved, kind="opentype"))
        for m in ("unpack",):
            out.append(simple(f"FileStatistics.{m}", C.drv_embedded("FileStatistics", m, prop),
                              inner(proved, "FileStatistics"), kind="statistics"))
        out += reader_units(proved, {"stat"}, [("file", "iter"), ("mem", "read")])
    elif prop == "C13":
        for nm, tz in (("naive", None), ("utc", datetime.timezone.utc),
                       ("offset", datetime.timezone(-datetime.timedelta(hours=3, minutes=30)))):
            out.append(simple(f"SystemTime.from_datetime[{nm}]", S.drv_from_datetime(tz, prop),
                              (), kind="from_datetime"))
        out.append(simple("SystemTime.from_datetime()", S.drv_from_now(prop), ()))
        out.append(simple("SystemTime.to_datetime", S.drv_to_datetime(prop), (),
                          kind="to_datetime"))
        out.append(simple("SystemTime.to_datetime[any milliseconds]", S.drv_to_datetime(prop, 65535),
                          (), kind="to_datetime"))
        out.append(simple("SystemTime roundtrip", S.drv_time_roundtrip(prop), (),
                          kind="to_datetime"))
    elif prop == "C14":
        for n in S.FACTORIES:
            out.append(simple(f"{n}.new", S.drv_factory(n, prop), proved, kind="factory", cls=n))
        out.append(simple("ObjectHeader.new", S.drv_header_new(prop), proved, kind="hdr"))
        for k in range(3):
            out.append(simple(f"LogContainer.new[{k}]", S.drv_container_new(k, prop), proved,
                              kind="cont", mode=k))
        out.append(simple("FileStatistics.new", S.drv_stats_new(prop), proved, kind="stat"))
    elif prop == "C07":
        out += writer_units(proved, opts, {"stream"}, W.ALL)
    elif prop == "C08":
        for n, v in C.record_units():
            out.append(record_unit(prop, n, v, C.drv_object_roundtrip, "object-roundtrip",
                                   proved))
        out.append(simple("NotImplementedObject", C.drv_opaque(prop), proved, kind="opaque"))
        out += reader_units(proved, {"frame", "raise", "dispatch"},
                            [("file", "iter"), ("mem", "read")])
        out += writer_units(proved, opts, {"stream", "rt", "append"}, W.ALL)
        out += lemma_units([n for n in LM.LEMMAS if n not in ("file cut", "unfinished")])
    elif prop == "C09":
        out += writer_units(proved, opts, {"stat", "append"}, W.ALL)
        out.append(simple("SystemTime.from_datetime[utc]", S.drv_from_datetime(
            datetime.timezone.utc, prop), (), kind="from_datetime"))
    elif prop == "C10":
        out += reader_units(proved, {"frame", "raise"},
                            [(k, h) for k in ("file", "mem") for h in ("iter", "read")])
        out += writer_units(proved, opts, {"stream", "rt", "append"},
                            ("init", "write", "misdeclared", "unencodable", "close"))
        out += lemma_units(LM.LEMMAS)
    elif prop == "C11":
        full = plan(proved, opts, W.ALL)
        acc = plan(proved, opts, W.ACCEPTED)
        for op in W.ALL:
            if op in W.ACCEPTED:
                out.append(Unit(f"BlfWriter: {op}", W.effect_unit(op, full, acc, proved),
                                {"differs"}, kind="writer", op=op))
            else:
                out.append(writer_unit(op, full, proved, {"reject"}))
        for n, v in C.record_units():
            out.append(record_unit(prop, n, v, C.drv_pack_keeps, "encoding keeps the object",
                                   proved))
    elif prop == "C15":
        p = plan(proved, opts, W.ALL)
        for op in ("init", "write", "misdeclared", "unencodable", "close", "enter",
                   "closed"):
            out.append(writer_unit(op, p, proved, {"final"}))
        for op in ("exit", "exit-exc"):
            out.append(Unit(f"BlfWriter: {op}", W.exit_unit(op, p, proved), {"final", "differs"},
                            kind="writer", op=op))
        out.append(simple("reader block", S.drv_reader_block(prop), proved, kind="rblock"))
    elif prop == "C16":
        out += writer_units(proved, opts, {"layout"}, W.ALL)
    elif prop == "C17":
        for e, w in (("ObjType", 4), ("AppId", 1), ("Compression", 1)):
            out.append(simple(f"{e}.from_int", S.drv_from_int(e, w, prop), (), kind="from_int",
                              enum=e))
        for s in ("ObjectHeaderBase", "ObjectHeader", "VarObjectHeader", "FileStatistics"):
            for m in L.CODECS[s]:
                if m in ("unpack", "unpack_from"):
                    out.append(simple(f"{s}.{m} codes", S.drv_codes(s, m, prop),
                                      inner(proved, s), kind="codes", struct=s))
        out.append(simple("NotImplementedObject codes", S.drv_opaque_codes(prop), proved,
                          kind="codes"))
    return out


class Stop(BaseException):
    pass


def plan(proved, opts, ops):
    """the writer's invariant (computed once, before the units run)"""
    def stop(*_):
        raise Stop
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, opts.get("plan_s", 150))
    try:
        return W.find_plan(proved, opts, ops)
    except Stop:
        core.CTX = None
        return W.Plan()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def writer_unit(op, p, proved, tags):
    return Unit(f"BlfWriter: {op}", lambda o: W.verify_op(op, p, proved, o), tags,
                kind="writer", op=op, empty=op not in ("close", "write"))


def writer_units(proved, opts, tags, ops):
    p = plan(proved, opts, W.ALL)
    out = [writer_unit(op, p, proved, tags) for op in ops]
    if "stream" in tags:
        for k in ("str", "bytes", "pathlib", "os.PathLike"):
            out.append(Unit(f"BlfWriter({k})", W.open_unit(k, proved), {"init"}, kind="wopen"))
        out[0].tags = tags | {"init"}
    return out


def lemma_units(names):
    return [Unit(f"lemma {n}", LM.lemma_unit(n), {"lemma"}, kind="lemma") for n in names]


def reader_units(proved, tags, kinds):
    return [Unit(f"BlfReader({k}) by {h}", R.reader_unit(k, h, proved), tags, kind="reader",
                 via=k, how=h, weight=9) for k, h in kinds]


def inner(proved, s):
    """contracts of the structures nested in s only (never its own)"""
    k = C.ORDER.index(s)
    return tuple(p for p in proved if C.ORDER.index(p[0]) < k)


# concrete classes to concentrate the counterexample search on
def focus(unit):
    return unit.meta.get("cls") or unit.meta.get("struct")


def embedded_needed(prop):
    return True
