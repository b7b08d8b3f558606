"""Executable statements of the properties over concrete cases.

For each property: gen(rng, i, deep) -> case (JSON data) and check(case) -> None or a message.
Cases come from solver counterexamples, from committed regressions and from seeded search.
"""
import contextlib
import copy
import datetime as rdt
import io
import os
import random
import struct
import tempfile
import time as rtime
import types
import zlib

import ref
from ref import L, Case, klass

G = ref.MOD["general"]
R = ref.MOD["reader"]
W = ref.MOD["writer"]
K = ref.MOD["constants"]


class Skip(Exception):
    """the case is outside the property's premises"""


def guard(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa: BLE001
        return None, e


def ex(e):
    return f"{type(e).__name__}: {e}"


# ============================================================ C01 C02 C03 C04 (codecs)
NAMES = list(L.RECORDS)
FOCUS = None  # a class the search concentrates on


def pick(rng, i):
    if FOCUS in L.RECORDS and rng.randrange(8):
        return FOCUS
    return NAMES[i % 30 % 29 if i % 2 else rng.randrange(29)]


def gen_C01(rng, i, deep):
    if i % 30 == 29:
        return {"k": "opaque", "hex": ref.gen_opaque(rng).hex()}
    c = ref.gen_case(rng, pick(rng, i), big=deep or i % 50 == 0)
    return {"k": "bytes", "cls": c.cls, "hex": c.encode().hex()}


def run_C01(d):
    b = bytes.fromhex(d["hex"])
    cls = G.NotImplementedObject if d["k"] == "opaque" else klass(d["cls"])
    o, e = guard(cls.unpack, b)
    if e:
        return f"{cls.__name__}.unpack raised {ex(e)}"
    p, e = guard(o.pack)
    if e:
        return f"{cls.__name__}.pack raised {ex(e)}"
    if bytes(p) != b:
        k = next((j for j in range(min(len(p), len(b))) if p[j] != b[j]), min(len(p), len(b)))
        return (f"{cls.__name__}: pack(unpack(b)) differs from b at byte {k} "
                f"(lengths {len(p)}/{len(b)})")
    return None


def gen_C02(rng, i, deep):
    c = ref.gen_case(rng, pick(rng, i), big=deep or i % 50 == 0)
    return {"k": "obj", "case": c.to_json()}


def run_C02(d):
    c = Case.from_json(d["case"])
    o, e = guard(c.build)
    if e:
        return f"{c.cls}: constructing the object raised {ex(e)}"
    keep = copy.deepcopy(o)
    p, e = guard(o.pack)
    if e:
        return f"{c.cls}.pack raised {ex(e)}"
    if len(p) != c.vals["header"]["base"]["object_size"]:
        return (f"{c.cls}: {len(p)} bytes encoded, "
                f"{c.vals['header']['base']['object_size']} declared")
    if not ref.same_val(o, keep):
        return f"{c.cls}: pack changed the object ({ref.diff(o, keep)})"
    p2, e = guard(o.pack)
    if e or bytes(p2) != bytes(p):
        return f"{c.cls}: packing twice gives different bytes"
    u, e = guard(klass(c.cls).unpack, bytes(p))
    if e:
        return f"{c.cls}.unpack of the encoding raised {ex(e)}"
    if not ref.same_val(u, keep):
        return f"{c.cls}: unpack(pack(o)) differs: {ref.diff(u, keep)}"
    return None


def gen_C03(rng, i, deep):
    if i % 12 == 11 or FOCUS in L.STRUCTS:
        s = FOCUS if FOCUS in L.STRUCTS else rng.choice(list(L.STRUCTS))
        return {"k": "struct", "name": s, "vals": ref.jenc(ref.rval(rng, "=" + s))}
    c = ref.gen_case(rng, pick(rng, i), big=deep)
    return {"k": rng.choice(["read", "write"]), "case": c.to_json(), "seed": rng.randrange(1 << 30)}


def spec_fields(c):
    return L.fields_of(c.rec)


def svals(s, d):
    """values of an embedded structure, given or as its bytes"""
    return ref.dec("=" + s, bytes.fromhex(d["raw"]), 0) if set(d) == {"raw"} else ref.jdec(d)


def run_C03(d):
    if d["k"] == "struct":
        s, v = d["name"], svals(d["name"], d["vals"])
        b = ref.enc_struct(s, v)
        cls = klass(s)
        want = ref.present("=" + s, v)
        un, pk, uf, pi = L.CODECS[s]
        for m, a in ((un, (b,)), (uf, (b, 0))):
            if m:
                o, e = guard(getattr(cls, m), *a)
                if e:
                    return f"{s}.{m} raised {ex(e)}"
                if not ref.same_val(o, want):
                    return f"{s}.{m}: {ref.diff(o, want)}"
        if pk:
            p, e = guard(getattr(want, pk))
            if e:
                return f"{s}.{pk} raised {ex(e)}"
            if bytes(p) != b:
                return f"{s}.{pk}: layout differs"
        if pi:
            buf = bytearray(len(b))
            _, e = guard(getattr(want, pi), buf, 0)
            if e:
                return f"{s}.{pi} raised {ex(e)}"
            if bytes(buf) != b:
                return f"{s}.{pi}: layout differs"
        return None
    c = Case.from_json(d["case"]) if "case" in d else ref.parse(
        d["cls"], d["variant"], bytes.fromhex(d["hex"]))
    if d["k"] in ("read", "rawread"):
        b = c.encode() if "case" in d else bytes.fromhex(d["hex"])
        if c.pad and "case" in d:
            import random
            b = b[:len(b) - len(c.pad)] + random.Random(d["seed"]).randbytes(len(c.pad))
        o, e = guard(klass(c.cls).unpack, b)
        if e:
            return f"{c.cls}.unpack raised {ex(e)}"
        for n, off, t in spec_fields(c):
            want = ref.present(t, ref.dec(t, b, off))
            if not ref.same_val(getattr(o, n, None), want):
                return f"{c.cls}.{n} read as {getattr(o, n, None)!r:.80}, at {off} stands {want!r:.80}"
        for n, want in c.expect_extra().items():
            got = getattr(o, n, None)
            if isinstance(want, float) and got == 0 and want == 0:
                continue
            if not ref.same_val(got, want):
                return f"{c.cls}.{n} read as {got!r:.80}, expected {want!r:.80}"
        return None
    o = c.build()
    p, e = guard(o.pack)
    if e:
        return f"{c.cls}.pack raised {ex(e)}"
    b = c.encode()
    n = len(b) - len(c.pad)
    if bytes(p[:n]) != b[:n]:
        k = next((j for j in range(n) if j >= len(p) or p[j] != b[j]), n)
        f = next((f"{x[0]} at {x[1]}" for x in reversed(spec_fields(c)) if x[1] <= k), "?")
        return f"{c.cls}.pack puts a different byte at {k} (field {f})"
    return None


def gen_C04(rng, i, deep):
    s = FOCUS if FOCUS in L.EMBEDDED and i % 8 else L.EMBEDDED[i % len(L.EMBEDDED)]
    size = L.STRUCTS[s][1]
    off = rng.choice([0, 1, 2, 3, 8, 16, 40, rng.randrange(200)])
    after = rng.choice([0, 0, 1, 16, rng.randrange(100)])
    return {"k": "emb", "name": s, "off": off, "vals": ref.jenc(ref.rval(rng, "=" + s)),
            "before": rng.randbytes(off).hex(), "after": rng.randbytes(after).hex(),
            "w": rng.randrange(2), "zero": size and rng.randrange(3)}


def run_C04(d):
    s, v = d["name"], svals(d["name"], d["vals"])
    own = ref.enc_struct(s, v)
    pre, post = bytes.fromhex(d["before"]), bytes.fromhex(d["after"])
    cls = klass(s)
    want = ref.present("=" + s, v)
    if d["w"]:
        buf = bytearray(pre + (bytes(len(own)) if d.get("zero") else own[::-1]) + post)
        _, e = guard(want.pack_into, buf, d["off"])
        if e:
            return f"{s}.pack_into raised {ex(e)}"
        alone = bytearray(len(own))
        want.pack_into(alone, 0)
        if bytes(buf) != pre + bytes(alone) + post:
            return f"{s}.pack_into at {d['off']} does not write exactly its own bytes"
        return None
    o, e = guard(cls.unpack_from, pre + own + post, d["off"])
    if e:
        return f"{s}.unpack_from raised {ex(e)}"
    alone, e = guard(cls.unpack_from, own, 0)
    if e:
        return f"{s}.unpack_from raised {ex(e)}"
    if not ref.same_val(o, alone):
        return f"{s}.unpack_from at {d['off']}: {ref.diff(o, alone)}"
    if not ref.same_val(o, want):
        return f"{s}.unpack_from at {d['off']}: {ref.diff(o, want)}"
    return None


# ============================================================ reference reader
def stats_block(level=0, vals=None):
    v = vals or {"signature": b"LOGG", "statistics_size": 144, "api_number": 0x3E4630,
                 "application_id": 0, "compression_level": level, "application_major": 1,
                 "application_minor": 2, "file_size": 0, "uncompressed_file_size": 0,
                 "object_count": 0, "application_build": 0,
                 "measurement_start_time": {n: 0 for n, _o, _t in L.STRUCTS["SystemTime"][2]},
                 "last_object_time": {n: 0 for n, _o, _t in L.STRUCTS["SystemTime"][2]},
                 "restore_points_offset": 0, "reserved": bytes(64)}
    return ref.enc_struct("FileStatistics", v)


def container(payload, level=0, tail=b"", clvl=6, rng=None):
    """a container; with rng, by a tool that fills in the fields the reader does not need anyhow"""
    data = zlib.compress(payload, clvl) if level else payload
    n, hs, ver, method, rest = len(payload), 32, 1, 2 if level else 0, (0, 0)
    if rng is not None and rng.randrange(3) == 0:
        n = rng.choice([0, 1, 16, n // 2, max(n - 1, 0), n + 1, rng.randrange(1 << 32),
                        rng.randrange(1 << 64)])
        hs = rng.choice([32, 32, 16, 0, 24, 40])
        ver = rng.choice([1, 1, 0, 2, 3])
        method = rng.choice([method, 0, 1, 2, 3])
        rest = rng.choice([(0, 0), (1, 1), (rng.randrange(1 << 16), rng.randrange(1 << 16))])
    return b"LOBJ" + struct.pack("<HHIIIHHQ", hs, ver, 32 + len(data), 10, method, *rest, n) \
        + data + tail


def ref_read(data):
    """the records the file content holds: [bytes], by scanning for signatures"""
    level = data[13]
    out = []
    carry = b""

    def scan(buf, top):
        pos = 0
        while True:
            i = buf.find(b"LOBJ", pos)
            if i < 0:
                return buf[max(pos, len(buf) - 3):]
            if len(buf) - i < 16:
                return buf[i:]
            size, code = struct.unpack_from("<II", buf, i + 8)
            if size < 16:
                pos = i + 1
                continue
            if len(buf) - i < size:
                return buf[i:]
            obj = buf[i:i + size]
            if code == 10:
                if not top:
                    raise Skip("nested container")
                yield_container(obj)
            else:
                out.append(obj)
            pos = i + size

    def yield_container(obj):
        nonlocal carry
        if len(obj) < 32:
            raise Skip("container without header")
        body = obj[32:]
        if level:
            try:
                body = zlib.decompress(body)
            except zlib.error:
                raise Skip("not a zlib stream") from None
        carry = scan(carry + body, False)

    scan(data[144:], True)
    return out


def decode(b):
    code = struct.unpack_from("<I", b, 12)[0]
    name = L.CODE_TO_CLASS.get(code)
    cls = klass(name) if name else G.NotImplementedObject
    return cls.unpack(b)


def expected(data):
    recs = ref_read(data)
    out = []
    for b in recs:
        o, e = guard(decode, b)
        if e:
            raise Skip("a record that is not well formed for its type")
        out.append(o)
    return recs, out


def lib_read(data, how="iter"):
    r = R.BlfReader(io.BytesIO(data))
    if how == "iter":
        return list(r)
    if how == "mixed":
        out = []
        for k, o in enumerate(r):
            out.append(o)
            if k % 2:
                o = r.read_object()
                if o is None:
                    break
                out.append(o)
        return out
    out = []
    while (o := r.read_object()) is not None:
        out.append(o)
    if r.read_object() is not None:
        raise AssertionError("read_object returned an object after None")
    return out


def compare(got, want, recs):
    for k, (a, b) in enumerate(zip(got, want)):
        if type(a) is not type(b):
            return f"record {k} (code {int.from_bytes(recs[k][12:16], 'little')}) delivered as " \
                   f"{type(a).__name__}, expected {type(b).__name__}"
        if not ref.same_val(a, b):
            return f"record {k} differs: {ref.diff(a, b)}"
        if isinstance(b, G.NotImplementedObject):
            p, e = guard(a.pack)
            if e or bytes(p) != recs[k]:
                return f"opaque record {k} does not encode back to its bytes"
    if len(got) != len(want):
        return f"{len(got)} records delivered, the content holds {len(want)}"
    return None


def gen_record(rng, deep=False, small=True):
    k = rng.randrange(10)
    if k < 3:
        n = rng.choice([16, 17, 18, 20, 24, 31, 32, 33, 40, 48, 63, 64, 100, 16 + rng.randrange(80)])
        if deep and rng.randrange(20) == 0:
            n = rng.choice([1000, 70000, 131072, 200000])
        code = rng.choice([12, 13, 60, 128 + rng.randrange(1, 200), 1 << 31, 0, 129])
        return b"LOBJ" + struct.pack("<HHII", 16, 1, n, code) + ref.rbytes(rng, n - 16)
    if k < 6:
        return ref.gen_case(rng, "CanMessage", sig=True).encode()
    if k < 7:
        return ref.gen_opaque(rng)[:16 + 0] and opaque_small(rng)
    name = rng.choice([n for n in NAMES if n != "LogContainer"])
    return ref.gen_case(rng, name, sig=True).encode()


def opaque_small(rng):
    n = 16 + rng.randrange(40)
    return b"LOBJ" + struct.pack("<HHII", 16, 0, n, 200 + rng.randrange(1000)) + rng.randbytes(n - 16)


def junk(rng):
    k = rng.randrange(14)
    if k < 6:
        return b""
    if k < 8:
        return bytes(rng.randrange(1, 9))
    if k == 8:
        return rng.choice([b"L", b"LO", b"LOB", b"LOLO", b"LLOB", b"OBJ", b"LLLL", b"LOB\0"])
    if k == 9:
        return b"LOBJ" + struct.pack("<HHII", 16, 1, rng.choice([0, 1, 4, 8, 12, 15]),
                                     rng.choice([1, 10, 86, 500]))
    if k == 10:
        return b"LOBJ" + rng.choice([b"", bytes(4), bytes(8), bytes(12)])[:12] + bytes(12)
    if k == 11:
        return bytes(rng.choice(b"LOBJ\0") for _ in range(rng.randrange(1, 20)))
    if k == 12:
        return rng.randbytes(rng.randrange(1, 40))
    return bytes(rng.randrange(1, 300))


def gen_stream(rng, deep):
    """a file: containers with arbitrary splits, loose records, junk"""
    level = rng.choice([0, 0, 0, 1, 6, 9])
    inner = b"".join(junk(rng) + gen_record(rng, deep) for _ in range(rng.randrange(0, 7)))
    if rng.randrange(3) == 0:
        inner += junk(rng)
    own = []
    if rng.randrange(6) == 0:
        # a record that carries something which looks like compressed data, cut at its edges
        z = zlib.compress(rng.choice([gen_record(rng), rng.randbytes(20), bytes(40)]),
                          rng.choice([0, 1, 6, 9]))
        if rng.randrange(3) == 0:
            z = z[:rng.randrange(len(z))]
        own = [len(inner) + 16, len(inner) + 16 + len(z)]
        inner += b"LOBJ" + struct.pack("<HHII", 16, 1, 16 + len(z), 300) + z
        inner += gen_record(rng)
    cuts = own + sorted(rng.randrange(len(inner) + 1) for _ in range(rng.choice([0, 0, 1, 2, 3, 8])))
    if rng.randrange(4) == 0 and inner:
        # split inside a signature or a header
        p = inner.find(b"LOBJ", rng.randrange(len(inner)))
        if p >= 0:
            cuts += [min(len(inner), p + rng.randrange(18)) for _ in range(2)]
    if rng.randrange(8) == 0:
        step = rng.randrange(1, 9)
        cuts = list(range(step, min(len(inner), 400), step))
    pieces, p = [], 0
    for q in [*sorted(cuts), len(inner)]:
        pieces.append(inner[p:q])
        p = q
    out = stats_block(level)
    if rng.randrange(3) == 0:
        # a recording that was not finished or was appended to: its counts say nothing
        out = out[:16] + struct.pack("<QQI", *(rng.choice([0, 1, 2, 144, 200]) for _ in range(3))) \
            + out[36:]
    loose = rng.randrange(3) == 0
    for x in pieces:
        if rng.randrange(3) == 0:
            out += junk(rng)
        if loose and rng.randrange(2):
            out += gen_record(rng, deep)
        out += container(x, level, rng=rng)
        if rng.randrange(2):
            out += bytes(-len(out) % 4)
    if loose:
        out += gen_record(rng, deep)
    if rng.randrange(3) == 0:
        out += junk(rng)
    return out


def gen_C06(rng, i, deep):
    return {"k": "file", "hex": gen_stream(rng, deep).hex(), "how": ["iter", "read", "mixed"][i % 3]}


def run_C06(d):
    data = bytes.fromhex(d["hex"])
    recs, want = expected(data)
    got, e = guard(lib_read, data, d.get("how", "iter"))
    if e:
        return f"reading raised {ex(e)}"
    return compare(got, want, recs)


def gen_C05(rng, i, deep):
    codes = list(L.CODE_TO_CLASS)
    if i < 5:
        pick = [c for c in range(i * 40, i * 40 + 40)]
    else:
        pick = [rng.choice([rng.randrange(129), rng.randrange(1 << 32), rng.randrange(300),
                            1 << rng.randrange(32), rng.choice(codes),
                            rng.choice(codes) | 1 << rng.randrange(8, 32)]) for _ in range(12)]
    out = stats_block(0)
    for code in pick:
        if code == 10:
            continue
        name = L.CODE_TO_CLASS.get(code)
        if name:
            out += ref.gen_case(rng, name, sig=True, code=code).encode()
        else:
            n = 16 + rng.choice([0, 1, 16, 32, rng.randrange(60), 700 if i % 9 == 0 else 5])
            out += b"LOBJ" + struct.pack("<HHII", rng.choice([16, 32]), rng.randrange(3), n,
                                         code) + ref.rbytes(rng, n - 16)
    return {"k": "file", "hex": out.hex(), "how": ["iter", "read"][i % 2]}


run_C05 = run_C06


# ============================================================ C10
def gen_C10(rng, i, deep):
    d = {"k": "cut", "how": ["iter", "read"][i % 2]}
    if i % 3 == 0:
        h = gen_history(rng, deep, bad=False)
        h["crash"] = rng.randrange(len(h["ops"]) + 1)
        h["snaps"] = True
        return {"k": "crash", "h": h}
    level = rng.choice([0, 0, 1, 6])
    inner = b""
    for _ in range(rng.randrange(1, 6)):
        r = gen_record(rng, deep)
        inner += bytes(-len(inner) % 8) + r
    step = rng.choice([8, 16, 40, 64, 100, 104, 1000, 100000])
    out = stats_block(level)
    for p in range(0, len(inner), step):
        out += bytes(-len(out) % 8) + container(inner[p:p + step], level, rng=rng)
        if len(out) > 40000:
            break
    if rng.randrange(4) == 0:
        out += gen_record(rng)
    cuts = [144 + rng.randrange(len(out) - 143) for _ in range(4)]
    d["hex"], d["cuts"] = out.hex(), cuts
    return d


def prefix_ok(got, want, recs, what):
    if len(got) > len(want):
        return f"{what}: {len(got)} records delivered, the original holds {len(want)}"
    m = compare(got, want[:len(got)], recs)
    return f"{what}: {m}" if m else None


def run_C10(d):
    if d["k"] == "crash":
        f = run_history(d["h"])
        if f.error:
            raise Skip("history failed")
        want = [decode(b) for b in f.accepted]
        recs = f.accepted
        files = [x for x in [f.crashed, *f.sink.snaps] if x is not None and len(x) >= 144]
        if not files:
            raise Skip("cut before the statistics block")
        rng = random.Random(len(files[-1]))
        files = files[:3] + [files[k] for k in sorted(rng.sample(range(len(files)),
                                                                 min(6, len(files))))] + files[-2:]
        cases = [(x, len(x)) for x in files]
        cases += [(x, rng.randrange(144, len(x) + 1)) for x in files[-4:]]
    else:
        data = bytes.fromhex(d["hex"])
        recs, want = expected(data)
        cases = [(data, n) for n in d["cuts"]]
    for data, n in cases:
        got, e = guard(lib_read, data[:n], d.get("how", "iter"))
        if e:
            return f"reading the file cut at {n} raised {ex(e)}"
        m = prefix_ok(got, want, recs, f"file cut at {n}")
        if m:
            return m
    return None


# ============================================================ C12
def gen_C12(rng, i, deep):
    k = rng.randrange(10)
    v = ref.rval(rng, "=FileStatistics")
    v["signature"] = b"LOGG"
    v["application_id"] = rng.randrange(256)
    v["compression_level"] = rng.randrange(256)
    b = ref.enc_struct("FileStatistics", v)
    kind = "ok"
    if k == 0:
        b, kind = b[:rng.choice([0, 1, 3, 4, 5, 16, 143, rng.randrange(144)])], "bad"
    elif k == 1:
        s = bytearray(b)
        s[rng.randrange(4)] ^= 1 << rng.randrange(8)
        b, kind = bytes(s), "bad"
    elif k == 2:
        b = rng.choice([b"LOBJ", b"logg", b"LOG\0", b"GGOL"]) + b[4:]
        kind = "bad"
    elif k == 3:
        b += rng.randbytes(rng.randrange(4, 40)).replace(b"L", b"x")
    elif k == 5:
        s = gen_stream(rng, deep)
        b = bytearray(b + s[144:])
        b[13] = s[13]
        for o, w in ((16, 8), (24, 8), (32, 4)):
            if rng.randrange(2):
                b[o:o + w] = rng.choice([0, 1, 144, 200]).to_bytes(w, "little")
        b = bytes(b)
    elif k == 4:
        return {"k": "type", "which": rng.randrange(7)}
    elif k == 6 and rng.randrange(2):
        # the signature is in the data, but not at its start
        n = rng.choice([1, 2, 3, 4, 8, 16, 140, rng.randrange(1, 141)])
        b, kind = rng.choice([bytes(n), b"\n" * n, b"L" * n, rng.randbytes(n - 1) + b"\n"]) + b, "bad"
    return {"k": kind, "hex": b.hex(), "via": rng.choice(["bytesio", "path", "str", "bytes", "obj"])}


class Readable:
    """a minimal readable binary stream"""

    def __init__(self, b):
        self._b = io.BytesIO(b)

    def read(self, n=-1):
        return self._b.read(n)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def close(self):
        self._b.close()


def run_C12(d):
    if d["k"] == "type":
        x = [None, 12, 3.5, object(), [1], {"a": 1}, ("x",)][d["which"]]
        try:
            R.BlfReader(x)
        except TypeError:
            return None
        except Exception as e:  # noqa: BLE001
            return f"opening {type(x).__name__} raised {ex(e)} instead of TypeError"
        return f"opening {type(x).__name__} did not raise TypeError"
    b = bytes.fromhex(d["hex"])
    bad = len(b) < 144 or b[:4] != b"LOGG"
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.blf")
        with open(p, "wb") as f:
            f.write(b)
        import pathlib
        src = {"bytesio": io.BytesIO(b), "path": pathlib.Path(p), "str": p,
               "bytes": os.fsencode(p), "obj": Readable(b)}[d["via"]]
        r = None
        try:
            try:
                r = R.BlfReader(src)
            except ValueError as e:
                return None if bad else f"opening a valid file raised {ex(e)}"
            except Exception as e:  # noqa: BLE001
                return f"opening raised {ex(e)}"
            if bad:
                return "opening invalid content succeeded"
            want = ref.present("=FileStatistics", ref.dec("=FileStatistics", b, 0))
            if not ref.same_val(r.file_statistics, want):
                return f"statistics: {ref.diff(r.file_statistics, want, 'file_statistics')}"
            guard(r.read_object)
            guard(list, r)
            if not ref.same_val(r.file_statistics, want):
                return "statistics after reading: " + ref.diff(r.file_statistics, want,
                                                              'file_statistics')
        finally:
            if r is not None:
                with contextlib.suppress(Exception):
                    r.__exit__(None, None, None)
    return None


# ============================================================ C13
def ms_of(us):
    q, r = divmod(us, 1000)
    if r > 500 or (r == 500 and q % 2 == 1):
        q += 1
    return min(999, q)


def gen_C13(rng, i, deep):
    y = rng.choice([1, 2, 1600, 1900, 1970, 1999, 2000, 2004, 2100, 2400, 9998, 9999,
                    rng.randrange(1, 10000)])
    m = rng.randrange(1, 13)
    dd = rng.choice([1, 28, 29, 30, 31, rng.randrange(1, 32)])
    while True:
        try:
            rdt.date(y, m, dd)
            break
        except ValueError:
            dd -= 1
    us = rng.choice([0, 1, 499, 500, 501, 1499, 1500, 2500, 999499, 999500, 999501, 999999,
                     500 + 1000 * rng.randrange(1000), rng.randrange(1000000)])
    return {"k": rng.choice(["dt", "st", "loop"]), "f": [
        y, m, dd, rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]),
        rng.choice([0, 59, rng.randrange(60)]), us], "tz": rng.randrange(4)}


def run_C13(d):
    f = d["f"]
    ST = G.SystemTime
    tz = [None, rdt.timezone.utc, rdt.timezone(rdt.timedelta(hours=14)),
          rdt.timezone(rdt.timedelta(hours=-11, minutes=-30))][d.get("tz", 0)]
    dt = rdt.datetime(*f, tzinfo=tz)
    wd = dt.isoweekday() % 7
    if d["k"] == "dt":
        s, e = guard(ST.from_datetime, dt)
        if e:
            return f"from_datetime({dt!r}) raised {ex(e)}"
        want = ST(f[0], f[1], wd, f[2], f[3], f[4], f[5], ms_of(f[6]))
        if not ref.same_val(s, want):
            return f"from_datetime({dt!r}): {ref.diff(s, want, 'SystemTime')}"
        return None
    ms = f[6] // 1000 if d["k"] == "loop" else f[6] % 1000
    if d["k"] == "st" and f[6] >= 500000:
        ms = f[6] % 65536     # more than a stored time should have
    s = ST(f[0], f[1], wd, f[2], f[3], f[4], f[5], ms)
    keep = copy.deepcopy(s)
    t, e = guard(s.to_datetime)
    if e:
        return f"{s!r}.to_datetime raised {ex(e)}"
    if not ref.same_val(s, keep):
        return "to_datetime changed the stored time"
    got = (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    if got != (*f[:6], min(999999, ms * 1000)):
        return f"{s!r}.to_datetime() = {t!r}"
    if ms > 999:
        return None
    s2, e = guard(ST.from_datetime, t)
    if e:
        return f"from_datetime(to_datetime) raised {ex(e)}"
    if not ref.same_val(s2, s):
        return f"stored time does not survive: {ref.diff(s2, s, 'SystemTime')}"
    return None


# ============================================================ C14
FACT = {
    "CanMessage": ("can", [("channel", "u2"), ("flags", "u1"), ("dlc", "u1"), ("frame_id", "u4")],
                   8, {}),
    "CanMessage2": ("can", [("channel", "u2"), ("flags", "u1"), ("dlc", "u1"),
                            ("frame_id", "u4"), ("frame_length", "u4"), ("bit_count", "u1")], 8,
                    {"reserved1": 0, "reserved2": 0}),
    "CanFdMessage": ("can", [("channel", "u2"), ("flags", "u1"), ("dlc", "u1"),
                             ("frame_id", "u4"), ("frame_length", "u4"), ("arb_bit_count", "u1"),
                             ("canfd_flags", "u1:CanFdFlags")], 64,
                     {"reserved1": 0, "reserved2": 0, "reserved3": 0}),
}


def gen_C14(rng, i, deep):
    k = i % 6
    if k < 3:
        n = list(FACT)[k]
        _m, fs, cap, _z = FACT[n]
        return {"k": "rec", "name": n, "args": {f: ref.rval(rng, t) for f, t in fs},
                "flags": rng.choice([0, 1, 2, 3, ref.rint(rng, 32)]), "ts": ref.rint(rng, 64),
                "data": ref.rbytes(rng, rng.choice([0, 1, cap - 1, cap, rng.randrange(cap + 1)])).hex()}
    if k == 3:
        return {"k": "hdr", "args": [ref.rint(rng, 32), rng.randrange(129), ref.rint(rng, 32),
                                     ref.rint(rng, 16), ref.rint(rng, 64)]}
    if k == 4:
        return {"k": "cont", "data": ref.rbytes(rng, ref.rlen(rng, 1 << 20, deep)).hex(),
                "ts": ref.rint(rng, 64), "flags": ref.rint(rng, 32), "ci": ref.rint(rng, 16),
                "d": rng.randrange(3)}
    return {"k": "stat"}


def run_C14(d):
    if d["k"] == "rec":
        name = d["name"]
        _m, fs, cap, zero = FACT[name]
        data = bytes.fromhex(d["data"])
        args = dict(d["args"])
        if "canfd_flags" in args:
            args["canfd_flags"] = K.CanFdFlags(args["canfd_flags"])
        def new():
            return klass(name).new(object_flags=K.ObjFlags(d["flags"]),
                                   object_time_stamp=d["ts"], data=data, **args)
        o, e = guard(new)
        if e is None:
            # what the caller does to one record is no concern of the next
            o.header.object_time_stamp ^= 1
            o.header.base.object_size += 1
            o.header.base.object_type = 0
            o.channel ^= 1
            o.data = b""
            o, e = guard(new)
        if e:
            return f"{name}.new raised {ex(e)}"
        rec = L.RECORDS[name]
        vals = {n: 0 for n, _o, _t in rec.fields}
        vals.update(d["args"])
        vals["data"] = data + bytes(cap - len(data))
        if name == "CanFdMessage":
            vals["valid_data_bytes"] = len(data)
        vals["header"] = {"base": {"signature": b"LOBJ", "header_size": 32, "header_version": 1,
                                   "object_size": rec.fixed, "object_type": rec.codes[0]},
                          "object_flags": d["flags"], "client_index": 0, "object_version": 0,
                          "object_time_stamp": d["ts"]}
        b = ref.put(L.fields_of(rec), vals, rec.fixed)
        for n, v in {**d["args"], "data": data}.items():
            got = getattr(o, n)
            if n == "data" and isinstance(got, (bytes, bytearray)):
                if bytes(got).rstrip(b"\0") != data.rstrip(b"\0") or len(got) not in (len(data), cap):
                    return f"{name}.new: data is {got!r:.60}"
            elif got != v:
                return f"{name}.new: {n} is {got!r:.60}, given {v!r}"
        p, e = guard(o.pack)
        if e:
            return f"{name}.new(...).pack raised {ex(e)}"
        if len(p) != o.header.base.object_size:
            return f"{name}.new: declared {o.header.base.object_size}, encoded {len(p)}"
        if bytes(p) != b:
            k = next((j for j in range(min(len(p), len(b))) if p[j] != b[j]), -1)
            return f"{name}.new(...).pack() differs from the given values at byte {k}"
        u, e = guard(klass(name).unpack, bytes(p))
        if e:
            return f"{name}: unpack raised {ex(e)}"
        for n, _o2, t in L.fields_of(rec):
            if not ref.same_val(getattr(u, n), ref.present(t, vals[n])):
                return f"{name}.new: field {n} read back as {getattr(u, n)!r:.60}"
        sink = Sink()
        try:
            w = W.BlfWriter(sink, compression_level=0)
            w.write(o)
            w.close()
            got = lib_read(sink.final)
        except Exception as e:  # noqa: BLE001
            return f"{name}.new: the writer/reader raised {ex(e)}"
        if len(got) != 1 or not ref.same_val(got[0], u):
            return f"{name}.new: not returned by the reader with the same values"
        return None
    if d["k"] == "hdr":
        size, ty, fl, ver, ts = d["args"]
        h, e = guard(G.ObjectHeader.new, size, K.ObjType(ty), K.ObjFlags(fl), ver, ts)
        if e is None:
            h.object_time_stamp ^= 1
            h.base.object_size += 1
            h, e = guard(G.ObjectHeader.new, size, K.ObjType(ty), K.ObjFlags(fl), ver, ts)
        if e:
            return f"ObjectHeader.new raised {ex(e)}"
        want = ref.enc_struct("ObjectHeader", {
            "base": {"signature": b"LOBJ", "header_size": 32, "header_version": 1,
                     "object_size": size, "object_type": ty},
            "object_flags": fl, "client_index": 0, "object_version": ver,
            "object_time_stamp": ts})
        p, e = guard(h.pack)
        if e:
            return f"ObjectHeader.new(...).pack raised {ex(e)}"
        return None if bytes(p) == want else "ObjectHeader.new: header differs from the values"
    if d["k"] == "cont":
        data = bytes.fromhex(d["data"])
        kw = {"data": data, "time_stamp": d["ts"]}
        fl, ci = 2, 0
        if d["d"]:
            fl = d["flags"]
            kw["flags"] = K.ObjFlags(fl)
        if d["d"] == 2:
            ci = d["ci"]
            kw["client_index"] = ci
        o, e = guard(G.LogContainer.new, **kw)
        if e:
            return f"LogContainer.new raised {ex(e)}"
        p, e = guard(o.pack)
        if e:
            return f"LogContainer.new(...).pack raised {ex(e)}"
        want = ref.enc_struct("ObjectHeader", {
            "base": {"signature": b"LOBJ", "header_size": 32, "header_version": 1,
                     "object_size": 32 + len(data), "object_type": 10},
            "object_flags": fl, "client_index": ci, "object_version": 0,
            "object_time_stamp": d["ts"]}) + data
        return None if bytes(p) == want else "LogContainer.new: encoding differs from the values"
    s, e = guard(G.FileStatistics.new)
    if e:
        return f"FileStatistics.new raised {ex(e)}"
    if (s.signature, s.statistics_size, s.file_size, s.uncompressed_file_size,
            s.object_count) != (b"LOGG", 144, 144, 144, 0):
        return "FileStatistics.new: wrong constants"
    p, e = guard(s.pack)
    if e or len(p) != 144 or bytes(p[:4]) != b"LOGG":
        return "FileStatistics.new(...).pack: not a 144 byte block"
    s2, e = guard(G.FileStatistics.unpack, bytes(p))
    if e or not ref.same_val(s, s2):
        return "FileStatistics.new does not survive encoding"
    return None


# ============================================================ writer histories
class Sink(io.BytesIO):
    final = None
    closes = 0
    keep = False

    def write(self, b):
        n = super().write(b)
        if self.keep and len(self.snaps) < 400:
            self.snaps.append(self.getvalue())
        return n

    def truncate(self, *a):
        n = super().truncate(*a)
        if self.keep:
            self.snaps.append(self.getvalue())
        return n

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        self.closes += 1
        super().close()


class Clock:
    def __init__(self, seq):
        self.seq, self.i, self.log = list(seq) or [0.0], 0, []

    def now(self):
        t = self.seq[min(self.i, len(self.seq) - 1)]
        self.i += 1
        self.log.append(t)
        return t


@contextlib.contextmanager
def scripted(clock):
    class FakeDT(rdt.datetime):
        @classmethod
        def now(cls, tz=None):
            return rdt.datetime.fromtimestamp(clock.now(), tz)

        @classmethod
        def utcnow(cls):
            return rdt.datetime.fromtimestamp(clock.now(), rdt.timezone.utc).replace(tzinfo=None)

    fdt = types.ModuleType("datetime")
    fdt.__dict__.update({k: v for k, v in vars(rdt).items() if not k.startswith("__")})
    fdt.datetime = FakeDT
    saved = []

    def setg(m, k, v):
        saved.append((m, k, getattr(m, k)))
        setattr(m, k, v)
    setg(rtime, "time", clock.now)
    setg(rtime, "time_ns", lambda: int(clock.now() * 1e9))
    for m in (W, G):
        if getattr(m, "datetime", None) is rdt:
            setg(m, "datetime", fdt)
        elif getattr(m, "datetime", None) is rdt.datetime:
            setg(m, "datetime", FakeDT)
        if hasattr(m, "time") and getattr(m, "time") is not rtime and callable(m.time):
            setg(m, "time", clock.now)
    try:
        yield
    finally:
        for m, k, v in reversed(saved):
            setattr(m, k, v)


class PackBoom(Exception):
    pass


class BadPack:
    """a record whose encoding fails"""

    def __init__(self, b, exc):
        self.header = types.SimpleNamespace(base=types.SimpleNamespace(object_size=len(b)))
        self.exc = exc

    def pack(self):
        raise self.exc


def gen_history(rng, deep, bad=True, tiny=False):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 14])
    ops = []
    for _ in range(n):
        if bad and rng.randrange(4) == 0:
            k = rng.randrange(4)
            if k == 3:
                ops.append(["boom", rng.randrange(3)])
            else:
                ops.append(["bad", gen_record(rng).hex(), rng.choice([-1, 1, -8, 8, 3, 1000, -16])])
        else:
            ops.append(["w", gen_record(rng, deep).hex()])
    buf = rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 56, 64, 100, 128, 200,
                      1000, 4096, 131072, 131072, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40])
    if rng.randrange(3) == 0 and any(o[0] == "w" for o in ops):
        # buffer sizes around the encoded sizes
        sizes = [len(o[1]) // 2 for o in ops if o[0] == "w"]
        buf = max(1, rng.choice(sizes) + rng.choice([-8, -1, 0, 0, 1, 8, sum(sizes)]))
    tot = sum(len(o[1]) // 2 for o in ops if o[0] == "w")
    if tot // buf > 3000:
        buf = 64
    k = rng.randrange(5)
    base = rng.choice([0.0, 1.0, 1.6e9, 1700000000.9995, 1700000000.5, 253402300799.0 / 20])
    seq = []
    t = base
    for _ in range(3 * n + 12):
        t = [t + rng.random(), base, max(0.0, t - rng.random() * 1000), rng.uniform(0, 1.4e10),
             t + 86400 * rng.randrange(400)][k]
        if rng.randrange(6) == 0:
            t = float(int(t)) + rng.choice([0.9994, 0.9995, 0.9999995, 0.0005, 0.0015])
        t = min(t, 1.4e10)
        seq.append(t)
    return {"ops": ops, "level": rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), "buf": buf,
            "scramble": rng.randrange(2), "reuse": rng.randrange(3) == 0,
            "tz": rng.choice(["UTC", "UTC", "Asia/Kolkata", "EST5EDT"]),
            "clock": seq, "end": rng.choice(["close", "close", "with", "exc"])}


class Run:
    pass


class UserExc(Exception):
    pass


def misdeclared(b, size):
    """an object that declares `size` and encodes to another length: of the record's own class
    where that does not take the length from the declared size, else opaque"""
    o, e = guard(decode, b)
    if e is None and b[-1] % 2:
        o.header.base.object_size = size
        p, e = guard(copy.deepcopy(o).pack)
        if e is None and len(p) != size:
            return o
    o = G.NotImplementedObject.unpack(b)
    o.header.base.object_size = size
    return o


def make_obj(b):
    o, e = guard(decode, b)
    if e:
        raise Skip("record not decodable")
    p, e = guard(o.pack)
    if e or bytes(p) != b:
        # the codec itself is broken: other properties speak about that
        o = G.NotImplementedObject.unpack(b)
    return o


def scramble(o):
    if hasattr(o.header, "object_time_stamp"):
        o.header.object_time_stamp ^= 0xFF
    if hasattr(o, "buffer"):
        o.buffer = b""
    o.header.base.object_size += 8
    for n in ("data", "channel"):
        if hasattr(o, n):
            setattr(o, n, b"" if n == "data" else getattr(o, n) ^ 1)


def run_history(h, collect=True):
    """the history, in the time zone it names"""
    old = os.environ.get("TZ")
    os.environ["TZ"] = h.get("tz", "UTC")
    rtime.tzset()
    try:
        return run_here(h)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        rtime.tzset()


def run_here(h):
    r = Run()
    r.error = None
    r.accepted, r.rejected, r.last, r.crashed = [], [], None, None
    r.snap = []
    clock = Clock(h["clock"])
    sink = Sink()
    sink.snaps = []
    sink.keep = h.get("snaps", False)
    r.sink = sink
    r.outcomes = []
    with scripted(clock):
        w, e = guard(W.BlfWriter, sink, compression_level=h["level"], buffer_size=h["buf"])
        if e:
            r.error = f"opening raised {ex(e)}"
            return r
        r.w = w

        pool = {}

        def body():
            for k, op in enumerate(h["ops"]):
                if h.get("crash") == k:
                    r.crashed = sink.getvalue()
                mark = len(clock.log)
                if op[0] in "wz":
                    b = bytes.fromhex(op[1]) if op[0] == "w" else \
                        b"LOBJ" + struct.pack("<HHII", 16, 1, op[1], 999) + bytes(op[1] - 16)
                    o = make_obj(b)
                    if h.get("reuse"):
                        # the caller fills one object per record type again and again
                        old = pool.setdefault(type(o), o)
                        old.__dict__.update(o.__dict__)
                        o = old
                    keep = copy.deepcopy(o)
                    _, e = guard(w.write, o)
                    if e:
                        r.error = f"write of a valid record of {len(b)} bytes raised {ex(e)}"
                        return
                    if not ref.same_val(o, keep):
                        r.error = "write changed the record"
                        return
                    if h.get("scramble"):
                        # the caller goes on using its object
                        scramble(o)
                    r.accepted.append(b)
                    r.last = clock.log[mark:]
                elif op[0] == "bad":
                    b = bytes.fromhex(op[1])
                    o = misdeclared(b, max(0, len(b) + op[2]))
                    _, e = guard(w.write, o)
                    if not isinstance(e, ValueError):
                        r.outcomes.append(
                            f"write of a record declaring {o.header.base.object_size} for "
                            f"{len(b)} bytes gave {ex(e) if e else 'no error'}")
                        if e is None:
                            return
                else:
                    exc = [PackBoom("boom"), struct.error("boom"), ValueError("boom")][op[1]]
                    _, e = guard(w.write, BadPack(b"x" * 40, exc))
                    if e is not exc:
                        r.outcomes.append(
                            f"write of an unencodable record gave {ex(e) if e else 'no error'}")
                        if e is None:
                            return
            if h.get("crash") == len(h["ops"]):
                r.crashed = sink.getvalue()

        end = h.get("end", "close")
        try:
            if end == "with":
                with w:
                    body()
            elif end == "exc":
                try:
                    with w:
                        body()
                        raise UserExc
                except UserExc:
                    pass
                else:
                    r.outcomes.append("the exception was swallowed by the with-block")
            else:
                body()
                _, e = guard(w.close)
                if e:
                    r.error = r.error or f"close raised {ex(e)}"
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            r.error = r.error or f"leaving the with-block raised {ex(e)}"
    if sink.final is None and r.error is None:
        r.error = "the file was not closed"
    r.data = sink.final if sink.final is not None else sink.getvalue()
    return r


def parse_containers(data):
    """[(offset, gap before, header fields, body)] of a written file, or a message"""
    out, pos = [], 144
    while pos < len(data):
        z = pos
        while pos < len(data) and data[pos] == 0:
            pos += 1
        if pos == len(data):
            return out, f"{pos - z} zero bytes at the end of the file"
        if data[pos:pos + 4] != b"LOBJ" or len(data) - pos < 32:
            return out, f"no container at offset {pos}"
        h = ref.dec("=ObjectHeader", data, pos)
        n = h["base"]["object_size"]
        if n < 32 or pos + n > len(data):
            return out, f"container at {pos} declares {n} bytes, {len(data) - pos} are left"
        if h["base"]["object_type"] != 10:
            return out, f"object of type {h['base']['object_type']} at {pos}"
        out.append((pos, pos - z, h, data[pos + 32:pos + n]))
        pos += n
    return out, None


def payloads(r, level):
    cs, m = parse_containers(r.data)
    if m:
        return None, m
    ps = []
    for pos, _g, _h, body in cs:
        if level:
            try:
                body = zlib.decompress(body)
            except zlib.error as e:
                return None, f"container at {pos} does not decompress: {e}"
        ps.append(body)
    return (cs, ps), None


def check_stream(s, accepted):
    pos = 0
    for k, b in enumerate(accepted):
        z = pos
        while pos < len(s) and s[pos] == 0 and pos - z < 8:
            pos += 1
        if pos - z >= 8:
            return f"{pos - z} or more zero bytes before record {k}"
        if s[pos:pos + len(b)] != b:
            return f"record {k} of {len(b)} bytes is not at {pos} of the payload stream"
        pos += len(b)
    rest = s[pos:]
    if any(rest) or len(rest) >= 8:
        return f"{len(rest)} extra bytes after the last record"
    return None


def gen_C07(rng, i, deep):
    if i % 16 == 7:
        h = gen_history(rng, deep, bad=False)
        return {"k": "path", "h": h, "old": rng.choice([0, 10, 144, 500, 20000])}
    return {"k": "hist", "h": gen_history(rng, deep, bad=i % 5 == 0)}


def run_C07_path(d):
    """the records go to a path at which there is a file already"""
    h = d["h"]
    recs = [bytes.fromhex(o[1]) for o in h["ops"] if o[0] == "w"]
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.blf")
        with open(p, "wb") as f:
            f.write((FS_OLD + rec_old(48) * (d["old"] // 48 + 1))[:d["old"]])
        w, e = guard(W.BlfWriter, p, compression_level=h["level"], buffer_size=h["buf"])
        if e:
            return f"opening a path at which there is a file raised {ex(e)}"
        for b in recs:
            _, e = guard(w.write, make_obj(b))
            if e:
                return f"write raised {ex(e)}"
        _, e = guard(w.close)
        if e:
            return f"close raised {ex(e)}"
        with open(p, "rb") as f:
            r = Run()
            r.data = f.read()
    x, m = payloads(r, h["level"])
    return (m or check_stream(b"".join(x[1]), recs)) and \
        f"a file of {d['old']} bytes was there before: " + (m or check_stream(b"".join(x[1]), recs))


FS_OLD = b"LOGG" + (144).to_bytes(4, "little") + bytes(136)


def rec_old(n):
    return b"LOBJ" + struct.pack("<HHII", 16, 1, n, 999) + bytes(n - 16)


def run_C07(d):
    if d["k"] == "path":
        return run_C07_path(d)
    h = d["h"]
    r = run_history(h)
    if r.error:
        return r.error
    if any("no error" in x for x in r.outcomes):
        raise Skip("rejection broken")
    x, m = payloads(r, h["level"])
    if m:
        return m
    return check_stream(b"".join(x[1]), r.accepted)


def gen_C16(rng, i, deep):
    return {"k": "hist", "h": gen_history(rng, deep, bad=i % 5 == 0)}


def run_C16(d):
    h = d["h"]
    r = run_history(h)
    if r.error:
        raise Skip("history failed")
    cs, m = parse_containers(r.data)
    if m:
        return m
    s = b""
    for pos, gap, hd, body in cs:
        if pos % 8:
            return f"container at offset {pos}"
        if gap >= 8:
            return f"{gap} zero bytes before the container at {pos}"
        if hd["base"]["header_size"] != 32 or hd["base"]["header_version"] != 1:
            return f"container at {pos}: header size/version {hd['base']['header_size']}/" \
                   f"{hd['base']['header_version']}"
        method = hd["object_flags"] & 0xFFFF
        plain = body
        if h["level"] == 0:
            if hd["object_flags"] != 0:
                return f"container at {pos}: method {hd['object_flags']} for stored data"
        else:
            if hd["object_flags"] != 2:
                return f"container at {pos}: method {method} for compressed data"
            plain, e = guard(zlib.decompress, body)
            if e:
                return f"container at {pos}: {ex(e)}"
        if hd["object_time_stamp"] & 0xFFFFFFFF != len(plain):
            return f"container at {pos}: uncompressed size {hd['object_time_stamp']} " \
                   f"for {len(plain)} bytes"
        if len(plain) > h["buf"]:
            return f"container at {pos}: payload {len(plain)} larger than the buffer {h['buf']}"
        s += plain
    if h["buf"] % 8 == 0 and not any("no error" in x for x in r.outcomes):
        pos = 0
        for k, b in enumerate(r.accepted):
            pos = s.find(b, pos)
            if pos < 0:
                raise Skip("stream broken")
            if pos % 8:
                return f"record {k} at {pos} of the payload stream"
            pos += len(b)
    return None


def st_of(t):
    dt = rdt.datetime.fromtimestamp(t, rdt.timezone.utc)
    return G.SystemTime(dt.year, dt.month, dt.isoweekday() % 7, dt.day, dt.hour, dt.minute,
                        dt.second, ms_of(dt.microsecond))


def gen_C09(rng, i, deep):
    return {"k": "hist", "h": gen_history(rng, deep, bad=i % 3 == 0)}


def check_stats(r, h):
    s = ref.dec("=FileStatistics", r.data, 0)
    if s["signature"] != b"LOGG" or s["statistics_size"] != 144:
        return f"statistics block starts {s['signature']!r} {s['statistics_size']}"
    want = {"object_count": len(r.accepted), "file_size": len(r.data),
            "uncompressed_file_size": 144 + sum(map(len, r.accepted)),
            "compression_level": h["level"]}
    for k, v in want.items():
        if s[k] != v:
            return f"statistics: {k} is {s[k]}, should be {v}"
    if r.accepted and r.last:
        got = s["last_object_time"]
        ok = []
        for t in r.last:
            x = st_of(t)
            ok.append({n: getattr(x, n) for n, _o, _t in L.STRUCTS["SystemTime"][2]})
        if got not in ok:
            return f"statistics: last object time {got}, should be {ok[-1]}"
    if r.accepted and not r.last:
        return real_time(r.accepted[-1])
    return None


def real_time(b):
    """the last write read no clock that is scripted: compare with the real one"""
    sink = Sink()
    w, e = guard(W.BlfWriter, sink)
    if e:
        return None
    rtime.sleep(0.015)
    first = rtime.time()
    _, e = guard(w.write, make_obj(b))
    last = rtime.time()
    rtime.sleep(0.015)
    _, f = guard(w.close)
    if e or f or last < first or last - first > 5:
        return None
    got = ref.dec("=FileStatistics", sink.final, 0)["last_object_time"]
    t = first - 0.002
    while t <= last + 0.003:
        x = st_of(t)
        if got == {n: getattr(x, n) for n, _o, _t in L.STRUCTS["SystemTime"][2]}:
            return None
        t += 0.0004
    return f"statistics: last object time {got}, the last write was at {first}"


def run_C09(d):
    h = dict(d["h"])
    r = run_history(h)
    if r.error:
        raise Skip("history failed")
    if any("no error" in x for x in r.outcomes):
        raise Skip("rejection broken")
    m = check_stats(r, h)
    if m:
        return m
    # in place: the bytes after the block are those of the file before it was finalised
    h2 = dict(h)
    r2 = pre_close(h2)
    if r2 is not None and r2[144:] != r.data[144:len(r2)]:
        return "finalising changed bytes outside the statistics block"
    return None


def pre_close(h):
    h = dict(h)
    h["crash"] = len(h["ops"])
    r = run_history(h)
    return r.crashed


def gen_C11(rng, i, deep):
    h = gen_history(rng, deep, bad=True)
    if not any(o[0] in ("bad", "boom") for o in h["ops"]):
        h["ops"].insert(rng.randrange(len(h["ops"]) + 1),
                        ["bad", gen_record(rng).hex(), rng.choice([-1, 1, 5, 100])])
    return {"k": "hist", "h": h}


def run_C11(d):
    h = d["h"]
    r = run_history(h)
    if r.error:
        raise Skip("history failed")
    if r.outcomes:
        return r.outcomes[0]
    h2 = dict(h, ops=[o for o in h["ops"] if o[0] == "w"])
    q = run_history(h2)
    if q.error:
        raise Skip("history failed")
    x, m = payloads(r, h["level"])
    y, m2 = payloads(q, h["level"])
    if m2:
        raise Skip("writer broken")
    if m:
        return m
    a, b = b"".join(x[1]), b"".join(y[1])
    if len(a) < len(b) or a[:len(b)] != b or any(a[len(b):]) or len(a) - len(b) >= 8:
        return "the record stream differs from the one without the rejected writes"
    s, t = ref.dec("=FileStatistics", r.data, 0), ref.dec("=FileStatistics", q.data, 0)
    for k in ("object_count", "uncompressed_file_size", "compression_level"):
        if s[k] != t[k]:
            return f"statistics: {k} is {s[k]}, without the rejected writes {t[k]}"
    if r.accepted and r.last:
        ok = [st_of(x) for x in r.last]
        ok = [{n: getattr(x, n) for n, _o, _t in L.STRUCTS["SystemTime"][2]} for x in ok]
        if s["last_object_time"] not in ok:
            return "statistics: last object time is not that of the last accepted write"
    return None


def gen_C08(rng, i, deep):
    h = gen_history(rng, deep, bad=False)
    if i % 2:
        h["ops"] = [["w", ref.gen_case(rng, NAMES[(i + j) % 29], sig=True).encode().hex()]
                    for j in range(rng.randrange(1, 6)) if NAMES[(i + j) % 29] != "LogContainer"]
    h["end"] = "close"
    if i == 3:
        # containers of many megabytes
        h.update(ops=[["z", 1 << 20]] * (70 if deep else 18), buf=1 << (27 if deep else 25), level=1)
    return {"k": "hist", "h": h}


def run_C08(d):
    h = d["h"]
    r = run_history(h)
    if r.error:
        return r.error
    got, e = guard(lib_read, r.data)
    if e:
        return f"reading the written file raised {ex(e)}"
    want = [decode(b) for b in r.accepted]
    return compare(got, want, r.accepted)


class UserBase(BaseException):
    pass


EXCS = [UserExc, KeyError, IndexError, ValueError, OSError, TypeError, KeyboardInterrupt,
        SystemExit, GeneratorExit, StopIteration, RuntimeError, EOFError, UserBase, struct.error,
        zlib.error, MemoryError, AttributeError, UnicodeDecodeError, FileNotFoundError,
        BrokenPipeError, TimeoutError, AssertionError, NotImplementedError, RecursionError]


def mkexc(k):
    t = EXCS[k % len(EXCS)]
    return t("utf-8", b"", 0, 1, "x") if t is UnicodeDecodeError else t()


def gen_C15(rng, i, deep):
    h = gen_history(rng, deep, bad=False)
    h["clock"] = [rng.choice([1.6e9, 5.25])]
    return {"k": rng.choice(["order", "reader", "order"]), "h": h,
            "steps": [rng.choice(["close", "exit", "exitexc", "late"]) for _ in range(rng.randrange(1, 5))],
            "where": rng.randrange(0, 6), "exc": rng.randrange(len(EXCS))}


def run_C15(d):
    h = dict(d["h"], end="close")
    boom = mkexc(d.get("exc", 0))
    base = run_history(h)
    if base.error:
        raise Skip("history failed")
    if d["k"] == "reader":
        data = base.data
        for exc in (False, True):
            f = Sink(data)
            r, e = guard(R.BlfReader, f)
            if e:
                raise Skip("reader broken")
            try:
                with r as rr:
                    if rr is not r:
                        return "the reader's __enter__ does not give the reader"
                    if d["where"] % 2:
                        rr.read_object()
                    if exc:
                        raise boom
            except BaseException as e:  # noqa: BLE001
                if e is not boom:
                    return f"leaving the reader's block raised {ex(e)}"
                if not exc:
                    return "unexpected exception"
            else:
                if exc:
                    return "the reader's block swallowed the exception"
            if not f.closed:
                return "leaving the reader's block did not close the file"
        return None
    if ref.dec("=FileStatistics", base.data, 0)["file_size"] != len(base.data):
        return "closing does not finalise the file: its statistics state another length"
    x, m = payloads(base, h["level"])
    if m is None:
        if sum(map(len, x[1])) < sum(map(len, base.accepted)):
            return "closing does not finalise the file: pending records are not in it"
    sink = Sink()
    clock = Clock(h["clock"])
    with scripted(clock):
        w = W.BlfWriter(sink, compression_level=h["level"], buffer_size=h["buf"])
        for op in h["ops"]:
            w.write(make_obj(bytes.fromhex(op[1])))
        for k, st in enumerate(d["steps"]):
            try:
                if st == "late":
                    # a write attempted after closing may fail, closing again may not
                    if sink.closed and h["ops"]:
                        guard(w.write, make_obj(bytes.fromhex(h["ops"][0][1])))
                elif st == "close":
                    w.close()
                elif st == "exit":
                    with w as ww:
                        if ww is not w:
                            return "the writer's __enter__ does not give the writer"
                        if d["where"] == k:
                            ww.close()
                else:
                    try:
                        with w:
                            if d["where"] == k:
                                w.close()
                            raise boom
                    except type(boom) as e:
                        if e is not boom:
                            raise
                    else:
                        return "the writer's block swallowed the exception"
            except Exception as e:  # noqa: BLE001
                return f"step {k} ({st}) of {d['steps']} raised {ex(e)}"
            if not sink.closed:
                if st == "late":
                    continue
                return f"step {k} ({st}) left the file open"
            if sink.final != base.data:
                return f"step {k} ({st}): the file differs from the one finalised by close()"
    # the same on a real file, whose bytes can change after closing
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "x.blf")
        with scripted(Clock(h["clock"])):
            w = W.BlfWriter(p, compression_level=h["level"], buffer_size=h["buf"])
            for op in h["ops"]:
                w.write(make_obj(bytes.fromhex(op[1])))
            for st in d["steps"]:
                try:
                    if st == "late":
                        continue
                    if st == "close":
                        w.close()
                    else:
                        try:
                            with w:
                                if st == "exitexc":
                                    raise boom
                        except type(boom) as e:
                            if e is not boom:
                                raise
                except Exception as e:  # noqa: BLE001
                    return f"{st} on a real file raised {ex(e)}"
                with open(p, "rb") as f:
                    if f.read() != base.data:
                        return f"after {st} the real file differs from the finalised one"
    return None


# ============================================================ C17
def gen_C17(rng, i, deep):
    if i == 0:
        return {"k": "all"}
    return {"k": "file", "app": rng.randrange(256), "lvl": rng.randrange(256),
            "code": rng.choice([rng.randrange(1 << 32), rng.randrange(300), 1 << rng.randrange(32)])}


def from_int_msg(e, v):
    vals, _f = L.ENUMS[e]
    E = klass(e)
    x, er = guard(E.from_int, v)
    if er:
        return f"{e}.from_int({v}) raised {ex(er)}"
    if v in vals:
        if type(x) is not E or x != v:
            return f"{e}.from_int({v}) = {x!r}"
    elif e == "Compression":
        if x != v:
            return f"Compression.from_int({v}) = {x!r}"
    elif type(x) is not E or x != 0:
        return f"{e}.from_int({v}) = {x!r}, should be unknown"
    return None


def run_C17(d):
    if d["k"] == "all":
        for e, top in (("AppId", 256), ("Compression", 256), ("ObjType", 1000)):
            for v in range(top):
                m = from_int_msg(e, v)
                if m:
                    return m
        return None
    if d["k"] == "code":
        return from_int_msg(d["enum"], d["v"])
    m = from_int_msg("ObjType", d["code"])
    if m:
        return m
    b = bytearray(stats_block(d["lvl"]))
    b[12] = d["app"]
    code = d["code"] if d["code"] not in L.CODE_TO_CLASS else 2000
    b += b"LOBJ" + struct.pack("<HHII", 16, 1, 20, code) + b"abcd"
    try:
        r = R.BlfReader(io.BytesIO(bytes(b)))
        got = list(r)
    except Exception as e:  # noqa: BLE001
        return f"reading with application id {d['app']}, level {d['lvl']}, code {code} raised {ex(e)}"
    s = r.file_statistics
    want = d["app"] if d["app"] in L.ENUMS["AppId"][0] else 0
    if s.application_id != want or not isinstance(s.application_id, K.AppId):
        return f"application id {d['app']} reported as {s.application_id!r}"
    if s.compression_level != d["lvl"]:
        return f"compression level {d['lvl']} reported as {s.compression_level!r}"
    if d["lvl"] in L.ENUMS["Compression"][0] and not isinstance(s.compression_level, K.Compression):
        return f"compression level {d['lvl']} is not reported as its named constant"
    if len(got) != 1:
        return f"{len(got)} records delivered for one record of code {code}"
    t = got[0].header.base.object_type
    if not isinstance(t, K.ObjType) or t != (code if code in L.ENUMS["ObjType"][0] else 0):
        return f"object type {code} reported as {t!r}"
    return None


PROPS = {f"C{k:02d}": (globals()[f"gen_C{k:02d}"], globals()[f"run_C{k:02d}"])
         for k in range(1, 18)}


def check(prop, case):
    """None if the property holds on the case (or the case is outside its premises)"""
    try:
        return PROPS[prop][1](case)
    except Skip:
        return None
