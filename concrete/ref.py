"""Concrete counterpart of spec.layout: reference encoder/decoder and generators.

Used to replay counterexamples against the real library and for the bounded cross-checks.
Runs under the interpreter that has the library installed; imports only the standard library,
the library under test and spec.layout.
"""
import enum
import importlib
import os
import random
import struct
import sys
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
from spec import layout as L  # noqa: E402


def _import_lib():
    try:
        importlib.import_module("vblf")
    except Exception:  # noqa: BLE001 - metadata of the package may be missing
        import importlib.metadata as md
        real = md.version
        md.version = lambda n: "0.3.1" if n == "vblf" else real(n)
        for k in [k for k in sys.modules if k == "vblf" or k.startswith("vblf.")]:
            del sys.modules[k]
        importlib.import_module("vblf")
    return {m: importlib.import_module("vblf." + m) for m in (
        "constants", "general", "can", "lin", "ethernet", "flexray", "tp_diag", "reader",
        "writer")}


MOD = _import_lib()


def klass(name):
    if name in L.STRUCTS:
        return getattr(MOD[L.STRUCTS[name][0]], name)
    if name in L.RECORDS:
        return getattr(MOD[L.RECORDS[name].mod], name)
    if name in L.ENUMS:
        return getattr(MOD["constants"], name)
    return getattr(MOD["general"], name)


# ------------------------------------------------------------ plain-data codec by the layout
def enc(t, v):
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return enc_struct(x, v)
    if kind in ("int", "enum"):
        return int(v).to_bytes(w, "little")
    if kind == "sint":
        return int(v).to_bytes(w, "little", signed=True)
    if kind in ("list", "tuple"):
        return b"".join(int(e).to_bytes(w, "little") for e in v)
    if kind == "f8":
        return bytes(v)
    assert len(v) == w
    return bytes(v)


def put(fs, vals, size):
    b = bytearray(size)
    for n, o, t in fs:
        e = enc(t, vals[n])
        b[o:o + len(e)] = e
    return bytes(b)


def enc_struct(s, vals):
    return put(L.STRUCTS[s][2], vals, L.STRUCTS[s][1])


def dec(t, b, o):
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return {n: dec(ty, b, o + oo) for n, oo, ty in L.STRUCTS[x][2]}
    if kind in ("int", "enum"):
        return int.from_bytes(b[o:o + w], "little")
    if kind == "sint":
        return int.from_bytes(b[o:o + w], "little", signed=True)
    if kind in ("list", "tuple"):
        return [int.from_bytes(b[o + w * k:o + w * k + w], "little") for k in range(x)]
    return bytes(b[o:o + w])


def width(t):
    kind, w, x = L.parse_type(t)
    return w * x if kind in ("list", "tuple") else w


# ------------------------------------------------------------ building library objects
def present(t, v):
    """plain data -> the value the library presents"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return klass(x)(**{n: present(ty, v[n]) for n, _o, ty in L.STRUCTS[x][2]})
    if kind == "enum":
        E = klass(x)
        try:
            return E(v)
        except ValueError:
            if x in ("ObjType", "AppId"):
                return E(0)
            return v
    if kind == "list":
        return list(v)
    if kind == "tuple":
        return tuple(v)
    if kind == "f8":
        return struct.unpack("<d", v)[0]
    return v


def same_val(a, b):
    """equality of presented values; doubles by their bytes"""
    if isinstance(a, float) or isinstance(b, float):
        try:
            return struct.pack("<d", a) == struct.pack("<d", b)
        except (struct.error, TypeError):
            return False
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_val, a, b))
    if hasattr(a, "__dataclass_fields__"):
        return type(a) is type(b) and set(vars(a)) == set(vars(b)) and all(
            same_val(x, vars(b)[k]) for k, x in vars(a).items())
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return a == b
    return type(a) is type(b) and a == b


def diff(a, b, path="o"):
    if type(a) is not type(b):
        return f"{path}: {a!r:.60} is not {b!r:.60}"
    if hasattr(a, "__dataclass_fields__"):
        for k in {**vars(a), **vars(b)}:
            if k not in vars(a) or k not in vars(b):
                return f"{path}.{k}: present on one side only"
            if not same_val(vars(a)[k], vars(b)[k]):
                if hasattr(vars(a)[k], "__dataclass_fields__"):
                    return diff(vars(a)[k], vars(b)[k], f"{path}.{k}")
                return f"{path}.{k}: {vars(a)[k]!r:.80} != {vars(b)[k]!r:.80}"
    return f"{path}: {a!r:.60} != {b!r:.60}"


class Case:
    """one record: class, variant, plain field values, tail values"""

    def __init__(self, cls, variant, vals, extra, pad=b""):
        self.cls, self.variant, self.vals, self.extra, self.pad = cls, variant, vals, extra, pad

    def to_json(self):
        return {"cls": self.cls, "variant": self.variant, "vals": jenc(self.vals),
                "extra": jenc(self.extra), "pad": self.pad.hex()}

    @staticmethod
    def from_json(d):
        return Case(d["cls"], d["variant"], jdec(d["vals"]), jdec(d["extra"]),
                    bytes.fromhex(d.get("pad", "")))

    @property
    def rec(self):
        return L.RECORDS[self.cls]

    def codec(self, n):
        t = self.rec.tail
        if t[0] == "parts":
            return {p[0]: p[1] for p in t[1]}[n]
        if t[0] == "apptext":
            return "cp1252"
        return "bytes"

    def raw(self):
        """tail bytes after the fixed part, padding included"""
        t = self.rec.tail
        if t is None:
            return self.pad
        if t[0] == "parts":
            return b"".join(self.extra[p[0]] for p in t[1]) + self.pad
        if t[0] == "apptext":
            return (b"" if self.variant == "empty" else self.extra["text"] + b"\0") + self.pad
        if t[0] in ("upto", "rest"):
            return self.extra[t[1]] + self.pad
        if t[0] in ("ext64", "exterr"):
            r = self.extra["data"]
            if self.variant == "noext":
                return r + self.pad
            off = self.vals[t[2]] - self.rec.fixed
            r += bytes(off - len(r))
            if self.variant == "ext":
                r += self.extra["btr_ext_arb"].to_bytes(4, "little")
                r += self.extra["btr_ext_data"].to_bytes(4, "little")
            return r + self.pad
        r = b""
        for j, (_s, fs) in enumerate(t[1]):
            if j < int(self.variant[1]) - 1:
                for n, _o, ty in fs:
                    r += enc(ty, self.extra[n])
        return r + self.pad

    def encode(self):
        return put(L.fields_of(self.rec), self.vals, self.rec.fixed) + self.raw()

    def settle(self):
        """make length fields and the declared size agree with the contents"""
        t = self.rec.tail
        if t is not None:
            if t[0] == "parts":
                for n, _c, lf in t[1]:
                    self.vals[lf] = len(self.extra[n])
            elif t[0] == "apptext":
                self.vals[t[2]] = 0 if self.variant == "empty" else len(self.extra["text"]) + 1
            elif t[0] == "upto":
                self.vals[t[2]] = len(self.extra[t[1]])
            elif t[0] == "exterr":
                self.vals["valid_data_bytes"] = len(self.extra["data"])
        self.vals["header"]["base"]["object_size"] = self.rec.fixed + len(self.raw())
        return self

    def expect_extra(self):
        out = {}
        t = self.rec.tail
        if t is None:
            return out
        if t[0] == "versions":
            for j, (_s, fs) in enumerate(t[1]):
                for n, _o, ty in fs:
                    on = j < int(self.variant[1]) - 1
                    v = self.extra[n] if on else (bytes(8) if ty == "f8" else 0)
                    out[n] = present(ty, v)
            return out
        for n, v in self.extra.items():
            if isinstance(v, bytes):
                c = self.codec(n)
                out[n] = v if c == "bytes" else v.decode(c)
            else:
                out[n] = v
        if t[0] in ("ext64", "exterr") and self.variant != "ext":
            out["btr_ext_arb"] = out["btr_ext_data"] = 0
        return out

    def build(self):
        kw = {n: present(t, self.vals[n]) for n, _o, t in L.fields_of(self.rec)}
        ex = self.expect_extra()
        if self.rec.tail is not None and self.rec.tail[0] == "versions":
            # absent groups are zero, of the plain kind the decoder gives
            for j, (_s, fs) in enumerate(self.rec.tail[1]):
                if j >= int(self.variant[1]) - 1:
                    for n, _o, _t in fs:
                        ex[n] = 0
        kw.update(ex)
        return klass(self.cls)(**kw)


def parse(cls, variant, b):
    """the Case whose encoding b is, read by the layout alone"""
    rec = L.RECORDS[cls]
    vals = {n: dec(t, b, o) for n, o, t in L.fields_of(rec)}
    extra, pos, t = {}, rec.fixed, rec.tail

    def take(n):
        nonlocal pos
        pos += n
        return b[pos - n:pos]
    if t is not None:
        if t[0] == "parts":
            for n, _c, lf in t[1]:
                extra[n] = take(vals[lf])
        elif t[0] == "apptext":
            extra["text"] = b"" if variant == "empty" else take(vals[t[2]] - 1)
            pos += variant != "empty"
        elif t[0] == "upto":
            extra[t[1]] = take(vals[t[2]])
        elif t[0] == "rest":
            extra[t[1]] = take(len(b) - pos)
        elif t[0] in ("ext64", "exterr"):
            off = vals[t[2]]
            n = vals["valid_data_bytes"] if t[0] == "exterr" else (off or len(b)) - pos
            extra["data"] = take(n)
            extra["btr_ext_arb"] = extra["btr_ext_data"] = 0
            if off:
                pos = off
            if variant == "ext":
                extra["btr_ext_arb"] = int.from_bytes(take(4), "little")
                extra["btr_ext_data"] = int.from_bytes(take(4), "little")
        elif t[0] == "versions":
            k = int(variant[1]) - 1
            for j, (_s, fs) in enumerate(t[1]):
                for n, o, ty in fs:
                    extra[n] = dec(ty, b, o) if j < k else (bytes(8) if ty == "f8" else 0)
                if j < k:
                    pos = _s
    return Case(cls, variant, vals, extra, b[pos:])


def jenc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, dict):
        return {k: jenc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jenc(x) for x in v]
    return v


def jdec(v):
    if isinstance(v, dict):
        if set(v) == {"hex"}:
            return bytes.fromhex(v["hex"])
        return {k: jdec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [jdec(x) for x in v]
    return v


# ------------------------------------------------------------ generators
def rint(rng, bits, signed=False):
    m = 1 << bits
    k = rng.randrange(8)
    if k == 0:
        v = 0
    elif k == 1:
        v = m - 1
    elif k == 2:
        v = rng.choice([1, 2, 7, 8, m >> 1, (m >> 1) - 1, m - 2])
    elif k == 3:
        v = 1 << rng.randrange(bits)
    elif k == 4:
        v = rng.randrange(min(m, 300))
    else:
        v = rng.randrange(m)
    return v - m if signed and v >= m >> 1 else v


def rbytes(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes(rng.choice(b"LOBJ\0") for _ in range(n))
    b = bytearray(rng.randbytes(n))
    if n and k == 3:
        b[-1] = 0
    if n and k == 4:
        b[0] = 0
    return bytes(b)


def rlen(rng, cap, big=False):
    c = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257]
    k = rng.randrange(10)
    if k < 5:
        n = rng.choice(c)
    elif k < 9 or not big:
        n = rng.randrange(70)
    else:
        n = rng.choice([1000, 4096, 65535, 65536, 70000, 131072])
    return min(n, cap)


CP = bytes(x for x in range(256) if x not in (0x81, 0x8D, 0x8F, 0x90, 0x9D))


def rtext(rng, codec, cap, big=False):
    n = rlen(rng, cap, big)
    k = rng.randrange(6)
    if codec == "cp1252":
        if k == 0:
            t = bytes(rng.choice(b"\0 \t\n") for _ in range(n))
        elif k == 1:
            t = bytes(rng.choice(CP[128:]) for _ in range(n))
        else:
            t = bytes(rng.choice(CP) for _ in range(n))
        if n and k == 2:
            t = t[:-1] + b"\0"
        return t
    pool = "aZ09 _\0\x7f\x80äöüß€Ωж中😀\U0010ffff\ufeff\r\n"
    t = "".join(rng.choice(pool) for _ in range(n)).encode("utf-8")
    while len(t) > cap:
        t = t.decode()[:-1].encode()
    return t


def rval(rng, t):
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return {n: rval(rng, ty) for n, _o, ty in L.STRUCTS[x][2]}
    if kind == "int":
        return rint(rng, 8 * w)
    if kind == "sint":
        return rint(rng, 8 * w, True)
    if kind == "enum":
        vals, flag = L.ENUMS[x]
        if flag and rng.randrange(3):
            return rint(rng, 8 * w)
        if flag:
            return rng.choice([0, *[v for v in vals if v >> 8 * w == 0]])
        return rng.choice(vals)
    if kind in ("list", "tuple"):
        return [rint(rng, 8 * w) for _ in range(x)]
    if kind == "f8":
        return struct.pack("<d", rng.choice([0.0, -0.0, 1.5, -1e300, 5e-324, float("inf"),
                                             19200.0, rng.random(), rng.uniform(-1e9, 1e9)]))
    return rbytes(rng, w)


VARIANTS = {"parts": ["parts"], "apptext": ["empty", "text", "text"], "upto": ["fits"],
            "rest": ["rest"], "ext64": ["noext", "ext", "cut"], "exterr": ["noext", "ext", "cut"],
            "versions": ["v1", "v2", "v3"]}


def gen_case(rng, name, variant=None, sig=False, big=False, code=None):
    rec = L.RECORDS[name]
    vals = {n: rval(rng, t) for n, _o, t in L.fields_of(rec)}
    t = rec.tail
    variant = variant or (rng.choice(VARIANTS[t[0]]) if t else "plain")
    extra, pad = {}, b""
    slack = rng.choice([0, 0, 0, 1, 2, 3, 4, 7, 8, 12]) if rec.slack else 0
    if t is None:
        pad = bytes(slack)
    elif t[0] == "parts":
        for n, c, _lf in t[1]:
            if c == "bytes":
                extra[n] = rbytes(rng, rlen(rng, 1 << 20, big))
            else:
                extra[n] = rtext(rng, c, 1 << 20, big)
        pad = bytes(slack)
    elif t[0] == "apptext":
        extra["text"] = b"" if variant == "empty" else rtext(rng, "cp1252", 1 << 20, big)
        pad = bytes(slack)
    elif t[0] == "upto":
        extra[t[1]] = rbytes(rng, rlen(rng, 65535, big))
        pad = bytes(slack)
    elif t[0] == "rest":
        extra[t[1]] = rbytes(rng, rlen(rng, 1 << 20, big))
    elif t[0] in ("ext64", "exterr"):
        cap = 64 if t[0] == "ext64" and rng.randrange(3) else 255
        cap = min(cap, 255 - rec.fixed) if variant != "noext" else cap
        if t[0] == "ext64" and variant == "noext":
            cap = 1 << 20
        extra["data"] = rbytes(rng, rlen(rng, cap))
        extra["btr_ext_arb"] = extra["btr_ext_data"] = 0
        if variant == "noext":
            vals[t[2]] = 0
            pad = bytes(slack) if t[0] == "exterr" else b""
        else:
            room = 255 - rec.fixed - len(extra["data"])
            gap = 0 if t[0] == "ext64" else rng.choice([0, 0, 1, 4, room, rng.randrange(room + 1)])
            vals[t[2]] = rec.fixed + len(extra["data"]) + min(gap, room)
            if variant == "ext":
                extra["btr_ext_arb"], extra["btr_ext_data"] = rint(rng, 32), rint(rng, 32)
                pad = bytes(slack)
            else:
                pad = bytes(rng.randrange(8))
    elif t[0] == "versions":
        k = int(variant[1]) - 1
        sizes = [rec.fixed] + [g[0] for g in t[1]]
        for j, (_s, fs) in enumerate(t[1]):
            for n, _o, ty in fs:
                extra[n] = rval(rng, ty) if j < k else (bytes(8) if ty == "f8" else 0)
        room = sizes[k + 1] - sizes[k] - 1 if k < len(t[1]) else 16
        pad = bytes(rng.choice([0, 0, room, rng.randrange(room + 1)]))
    case = Case(name, variant, vals, extra, pad).settle()
    if sig:
        b = case.vals["header"]["base"]
        b["signature"] = b"LOBJ"
        b["header_size"] = 32
        b["object_type"] = code if code is not None else rng.choice(rec.codes)
    return case


def gen_opaque(rng, sig=True):
    """a record of a type no class exists for"""
    n = 16 + rlen(rng, 5000)
    body = rbytes(rng, n - 16)
    code = rng.choice([c for c in range(129) if c not in L.CODE_TO_CLASS] + [
        129, 130, 255, 256, 257, 65537, 1 << 31, (1 << 32) - 1, 0x0100, 0x10001, 0x01000056])
    return b"LOBJ" + struct.pack("<HHII", rng.choice([16, 32, 24, 0]), rint(rng, 16), n,
                                 code) + body
