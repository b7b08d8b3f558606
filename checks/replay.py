"""From a solver model of a failed obligation to concrete cases for the falsifier."""
from spec import layout as L


def hexof(x):
    return bytes.fromhex(x["hex"]) if isinstance(x, dict) and "hex" in x else None


def num(m, k, d=0):
    v = m.get(k, d)
    return v if isinstance(v, int) else d


def plain(m, prefix, t):
    """spec-level value of the field called `prefix` in the model"""
    kind, w, x = L.parse_type(t)
    if kind == "struct":
        return {n: plain(m, f"{prefix}.{n}", ty) for n, _o, ty in L.STRUCTS[x][2]}
    if kind in ("int", "enum", "sint"):
        return num(m, prefix)
    if kind in ("list", "tuple"):
        return [num(m, f"{prefix}[{k}]") for k in range(x)]
    v = m.get(prefix)
    if isinstance(v, dict) and "f64" in v:
        v = v["f64"]
    b = hexof(v)
    return {"hex": (b if b is not None else bytes(w)).hex()}


def container(payload):
    return b"LOBJ\x20\0\1\0" + (32 + len(payload)).to_bytes(4, "little") + \
        b"\x0a\0\0\0" + bytes(8) + len(payload).to_bytes(8, "little") + payload


def cases(prop, unit, model, name):
    """concrete cases a model suggests (possibly none)"""
    if not model:
        return []
    k = unit.meta.get("kind")
    out = []
    b = hexof(model.get("record"))
    if k == "bytes-roundtrip" and b is not None:
        out.append({"k": "bytes", "cls": unit.meta["cls"], "hex": b.hex()})
    elif k == "opaque" and b is not None:
        out.append({"k": "opaque", "hex": b.hex()})
    elif k in ("object-roundtrip", "write"):
        c = object_case(unit, model)
        if c:
            out.append({"k": "obj", "case": c} if k == "object-roundtrip" else
                       {"k": "write", "case": c, "seed": 0})
    elif k == "read" and b is not None:
        out.append({"k": "rawread", "cls": unit.meta["cls"], "variant": unit.meta["variant"],
                    "hex": b.hex()})
    elif k in ("emb", "struct"):
        out += struct_cases(k, unit, model)
    elif k == "open":
        b = hexof(model.get("content"))
        via = {"file": "obj", "mem": "bytesio", "pathlib": "path", "os.PathLike": "path"}.get(
            unit.meta["via"], unit.meta["via"])
        if b is not None:
            out.append({"k": "ok", "hex": b.hex(), "via": via})
    elif k == "reader":
        b, pl = hexof(model.get("content")), hexof(model.get("payload"))
        if b is not None:
            out.append({"k": "file", "hex": b.hex(), "how": unit.meta["how"]})
        if pl is not None:
            for tail in (b"", bytes(8), b"LOBJ\x10\0\1\0\x18\0\0\0\x0d\0\0\0abcdefgh"):
                out.append({"k": "file", "how": unit.meta["how"], "hex": (
                    b"LOGG\x90\0\0\0".ljust(144, b"\0") + container(pl) + container(tail)).hex()})
    elif k == "writer":
        out += history_cases(prop, unit, model)
    elif k == "statistics":
        b = hexof(model.get("buffer"))
        if b is not None:
            b = b"LOGG" + (b + bytes(144))[4:144]
            out.append({"k": "ok", "hex": b.hex(), "via": "bytesio"})
    elif k == "opentype":
        out += [{"k": "type", "which": w} for w in range(7)]
    elif k == "from_datetime":
        f = [num(model, f"dt.{n}", 1) for n in ("year", "month", "day", "hour", "minute",
                                                "second", "microsecond")]
        out += [{"k": "dt", "f": f, "tz": z} for z in (0, 1, 2)]
    elif k == "to_datetime":
        f = [num(model, n, 1) for n in ("year", "month", "day", "hour", "minute", "second")]
        out.append({"k": "loop", "f": [*f, num(model, "milliseconds") * 1000], "tz": 0})
    elif k == "factory":
        from spec import small
        fs, dn, _cap = small.FACTORIES[unit.meta["cls"]]
        out.append({"k": "rec", "name": unit.meta["cls"], "args": {n: num(model, n) for n in fs},
                    "flags": num(model, "object_flags"), "ts": num(model, "object_time_stamp"),
                    "data": (hexof(model.get(dn)) or b"").hex()})
    elif k == "hdr":
        out.append({"k": "hdr", "args": [num(model, n) for n in (
            "object_size", "object_type", "object_flags", "object_version",
            "object_time_stamp")]})
    elif k == "cont":
        out.append({"k": "cont", "data": (hexof(model.get("data")) or b"").hex(),
                    "ts": num(model, "time_stamp"), "flags": num(model, "flags"),
                    "ci": num(model, "client_index"), "d": unit.meta["mode"]})
    elif k == "stat":
        out.append({"k": "stat"})
    elif k == "from_int":
        out.append({"k": "code", "enum": unit.meta["enum"], "v": num(model, "code")})
    elif k == "codes":
        out += code_cases(unit, model)
    return out


def opaque(n):
    """a record of unknown type of n >= 16 bytes"""
    return b"LOBJ\x10\0\1\0" + n.to_bytes(4, "little") + (60000).to_bytes(4, "little") + \
        bytes(k % 251 + 1 for k in range(n - 16))


def history_cases(prop, unit, m):
    """histories that lead near the state of the model, then do what it does"""
    size = lambda k: m[k].get("len", len(m[k].get("hex", "")) // 2) if k in m else 0  # noqa: E731
    b, e = size("pending"), max(16, size("record"))
    if b > 20000 or e > 20000:
        return []
    t = num(m, "t")
    first = [["w", opaque(b - t).hex()]] if b - t >= 16 else \
        [["w", opaque(24).hex()]] if num(m, "k") else []
    delta = num(m, "declared", e) - e
    last = {"misdeclared": [["bad", opaque(e).hex(), max(-e, min(delta, 10 ** 6)) or 1]],
            "unencodable": [["boom", 0]],
            "write": [["w", opaque(e).hex()]]}.get(unit.meta.get("op"), [])
    out = []
    for buf in {max(1, num(m, "buffer_size", 1)), 131072}:
        for ops in (first + last, first + last + [["w", opaque(17).hex()]],
                    [["bad", opaque(21).hex(), 1]] + first + last):
            h = {"ops": ops, "level": num(m, "level") % 10, "buf": buf,
                 "clock": [1.6e9 + 3.25 * k for k in range(40)],
                 "end": "exc" if unit.meta.get("op") == "exit-exc" else "close"}
            if prop == "C15":
                h["ops"] = [o for o in ops if o[0] == "w"]
                h["end"] = "close"
                for step in ("close", "exit", "exitexc"):
                    out.append({"k": "order", "h": h, "steps": [step, "close"], "where": 9,
                                "exc": 0})
            elif prop == "C10":
                out.append({"k": "crash", "h": dict(h, crash=len(ops), snaps=True)})
            else:
                out.append({"k": "hist", "h": h})
    return out


def code_cases(unit, m):
    b = hexof(m.get("buffer")) or hexof(m.get("record")) or b""
    off = num(m, "offset")
    b = b[off:] + bytes(200)
    if unit.meta.get("struct") == "FileStatistics":
        return [{"k": "file", "app": b[12], "lvl": b[13], "code": 2000}]
    return [{"k": "file", "app": 0, "lvl": 0, "code": int.from_bytes(b[12:16], "little")}]


def struct_cases(k, unit, m):
    s, meth = unit.meta["struct"], unit.meta["method"]
    size = L.STRUCTS[s][1]
    buf = hexof(m.get("buffer")) or b""
    off = num(m, "offset")
    if meth in ("unpack", "unpack_from"):
        own = buf[off:off + size]
        own += bytes(size - len(own))
        before, after = buf[:off], buf[off + size:]
        vals = {"raw": own.hex()}
        w = 0
    else:
        before, after = buf[:off], buf[off + size:]
        vals = plain(m, "self", "=" + s)
        w = 1
    if k == "struct":
        return [{"k": "struct", "name": s, "vals": vals}]
    return [{"k": "emb", "name": s, "off": off, "vals": vals, "before": before.hex(),
             "after": after.hex(), "w": w, "zero": z} for z in (0, 1)]


def object_case(unit, m):
    rec, variant = L.RECORDS[unit.meta["cls"]], unit.meta["variant"]
    vals = {n: plain(m, n, t) for n, _o, t in L.fields_of(rec)}
    extra = {}
    t = rec.tail
    if t is not None:
        if t[0] == "parts":
            names = [p[0] for p in t[1]]
        elif t[0] == "versions":
            names = []
            for _s, fs in t[1]:
                for n, _o, ty in fs:
                    extra[n] = plain(m, n, ty)
        else:
            names = [t[1]]
        for n in names:
            b = hexof(m.get(n))
            extra[n] = {"hex": (b or b"").hex()}
        if t[0] in ("ext64", "exterr"):
            for n in ("btr_ext_arb", "btr_ext_data"):
                extra[n] = num(m, n)
    pad = num(m, "slack") + num(m, "cut")
    if pad > 4096:
        return None
    return {"cls": rec.name, "variant": variant, "vals": vals, "extra": extra,
            "pad": bytes(pad).hex()}
