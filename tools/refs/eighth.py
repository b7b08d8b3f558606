R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
G = "src/vblf/general.py"
C = "src/vblf/can.py"
T = "src/vblf/tp_diag.py"
L = "src/vblf/lin.py"

CAN_UNPACK = '''        (
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        )
'''
ENV_GET = '''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            name_length,
            data_length,
            reserved,
            name,
            data,
        )
'''
COMMENT_PACK = '''        encoded_text = self.text.encode("cp1252")
        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[text_offset : text_offset + self.text_length] = encoded_text
        return bytes(buffer)
'''
MARKER_PACK = '''            + self.group_name.encode("cp1252")
            + self.marker_name.encode("cp1252")
            + self.description.encode("cp1252")
        )
'''
TRIGGER_GET = '''        # get trigger_block_name
        trigger_block_name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        _trigger_block_name = buffer[
            trigger_block_name_offset : trigger_block_name_offset + trigger_block_name_length
        ]
        trigger_block_name = _trigger_block_name.decode("cp1252")

        # get trigger_condition
        trigger_condition_offset = trigger_block_name_offset + trigger_block_name_length
        _trigger_condition = buffer[
            trigger_condition_offset : trigger_condition_offset + trigger_condition_length
        ]
        trigger_condition = _trigger_condition.decode("cp1252")
'''
STAT_TAIL = '''        self.measurement_start_time.pack_into(buffer, 40)
        self.last_object_time.pack_into(buffer, 56)
        return bytes(buffer)
'''
APPTEXT_PACK = '''        encoded_text = self.text.encode("cp1252")
        if self.text_length > 0:
            encoded_text += b"\\x00"
        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[text_offset : text_offset + self.text_length] = encoded_text
'''
OVERRUN = '''        return cls(
            header,
            BusType(bus_type),
            channel,
            reserved,
        )
'''
DIAG_GET = '''        ecu_qualifier = buffer[
            ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length
        ].decode("utf-8")
        variant_qualifier = buffer[
            variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
        ].decode("utf-8")
        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
'''
FROM_DT = '''        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
            dt.day,
            dt.hour,
            dt.minute,
            dt.second,
            min(999, round(dt.microsecond / 1000.0)),
        )
'''
FD64_GET = '''        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_length = (ext_data_offset or header.base.object_size) - data_offset
        data = buffer[data_offset : data_offset + data_length]

        # get ext frame data
        btr_ext_arb, btr_ext_data = 0, 0
'''
FIND = '''            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
'''
PREPEND = '''                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""
'''
FLUSH_IF = '''        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
'''
EDITS = {
    "codec8-namedtuple": {C: [
        ("from dataclasses import dataclass\n",
         "from collections import namedtuple\nfrom dataclasses import dataclass\n"),
        ("\n\n@dataclass\nclass CanMessage(", '''

_RawCan = namedtuple("_RawCan", "channel flags dlc frame_id data")


@dataclass
class CanMessage('''),
        (CAN_UNPACK, '''        raw = _RawCan._make(cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE))
        return cls(
            header=header,
            channel=raw.channel,
            flags=raw.flags,
            dlc=raw.dlc,
            frame_id=raw.frame_id,
            data=raw.data,
        )
''')]},
    "codec8-dict-zip": {C: [
        (CAN_UNPACK, '''        names = ("channel", "flags", "dlc", "frame_id", "data")
        values = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(header, **dict(zip(names, values)))
''')]},
    "codec8-attrgetter": {C: [
        ("import struct\n", "import struct\nfrom operator import attrgetter\n"),
        ('''            self.channel,
            self.tx_errors,
            self.rx_errors,
            self.error_code,
        )


''', '''            *attrgetter("channel", "tx_errors", "rx_errors", "error_code")(self)
        )


''')]},
    "codec8-module-struct": {G: [
        ("        time, logging_offset = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)\n",
         "        time, logging_offset = struct.unpack_from(cls._FORMAT.format, buffer, "
         "ObjectHeader.SIZE)\n"),
        ("self._FORMAT.pack(self.time, self.logging_offset)",
         "struct.pack(self._FORMAT.format, self.time, self.logging_offset)")]},
    "codec8-position": {G: [
        (ENV_GET, '''        pos = ObjectHeader.SIZE + cls._FORMAT.size
        parts = []
        for length in (name_length, data_length):
            parts.append(buffer[pos : pos + length])
            pos += length

        return cls(
            header, name_length, data_length, reserved, parts[0].decode("cp1252"), parts[1]
        )
''')]},
    "codec8-comment-slice-end": {G: [
        (COMMENT_PACK, '''        start = ObjectHeader.SIZE + self._FORMAT.size
        end = start + self.text_length
        buffer[start:end] = self.text.encode("cp1252")
        return bytes(buffer)
''')]},
    "codec8-marker-texts": {G: [
        (MARKER_PACK, '''            + b"".join(
                text.encode("cp1252")
                for text in (self.group_name, self.marker_name, self.description)
            )
        )
''')]},
    "codec8-trigger-tail": {G: [
        (TRIGGER_GET, '''        texts = buffer[ObjectHeader.SIZE + cls._FORMAT.size :]
        trigger_block_name = texts[:trigger_block_name_length].decode("cp1252")
        texts = texts[trigger_block_name_length:]
        trigger_condition = texts[:trigger_condition_length].decode("cp1252")
''')]},
    "codec8-stat-insert": {G: [
        (STAT_TAIL, '''        times = (self.measurement_start_time, self.last_object_time)
        for offset, stamp in zip((40, 56), times):
            stamp.pack_into(buffer, offset)
        return bytes(buffer)
''')]},
    "codec8-apptext-ternary": {G: [
        (APPTEXT_PACK, '''        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        terminator = b"\\x00" if self.text_length > 0 else b""
        buffer[text_offset : text_offset + self.text_length] = (
            self.text.encode("cp1252") + terminator
        )
''')]},
    "codec8-overrun-kwargs": {G: [
        (OVERRUN, '''        return cls(
            reserved=reserved,
            channel=channel,
            bus_type=BusType(bus_type),
            header=header,
        )
''')]},
    "codec8-diag-closure": {T: [
        (DIAG_GET, '''        def text(start: int, length: int) -> str:
            return buffer[start : start + length].decode("utf-8")

        ecu_qualifier = text(ecu_qualifier_offset, ecu_qualifier_length)
        variant_qualifier = text(variant_qualifier_offset, variant_qualifier_length)
        service_qualifier = text(service_qualifier_offset, service_qualifier_length)
''')]},
    "codec8-fd64-end": {C: [
        (FD64_GET, '''        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_end = ext_data_offset if ext_data_offset else header.base.object_size
        data = buffer[data_offset:data_end]

        # get ext frame data
        btr_ext_arb = btr_ext_data = 0
''')]},
    "general8-datetime-parts": {G: [
        (FROM_DT, '''        date = (dt.year, dt.month, dt.isoweekday() % 7, dt.day)
        time = (dt.hour, dt.minute, dt.second)
        millis = round(dt.microsecond / 1000.0)
        return cls(*date, *time, 999 if millis > 999 else millis)
''')]},
    "general8-timedelta": {G: [
        ('''            self.second,
            min(999999, self.milliseconds * 1000),
        )
''', '''            self.second,
        ) + datetime.timedelta(microseconds=min(999999, self.milliseconds * 1000))
''')]},
    "general8-new-cls": {G: [
        ('''        header = cls(
            base,
            object_flags,
            0,
            object_version,
            object_time_stamp,
        )
        return header
''', '''        return cls(
            base=base,
            client_index=0,
            object_flags=object_flags,
            object_time_stamp=object_time_stamp,
            object_version=object_version,
        )
''')]},
    "general8-version-split": {G: [
        ('''        major_version, minor_version, *_ = __version__.split(".")
''', '''        version = __version__.split(".")
        major_version = version[0]
        minor_version = version[1]
''')]},
    "general8-version-map": {G: [
        ('''        major_version, minor_version, *_ = __version__.split(".")
''', '''        major_version, minor_version = map(int, __version__.split(".")[:2])
'''),
        ("application_major=int(major_version)", "application_major=major_version"),
        ("application_minor=int(minor_version)", "application_minor=minor_version")]},
    "reader8-two-step-class": {R: [
        (FIND, '''            obj_class: type[ObjectWithHeader[Any]]
            known = OBJ_MAP.get(header_base.object_type)
            if known is None:
                obj_class = NotImplementedObject
            else:
                obj_class = known
''')]},
    "reader8-in-map": {R: [
        (FIND, '''            obj_class: Any = NotImplementedObject
            if header_base.object_type in OBJ_MAP:
                obj_class = OBJ_MAP[header_base.object_type] or NotImplementedObject
''')]},
    "reader8-swap-incomplete": {R: [
        (PREPEND, '''                incomplete, self._incomplete_data = self._incomplete_data, b""
                uncompressed = b"".join((incomplete, uncompressed))
''')]},
    "reader8-startswith": {R: [
        ("            if signature != OBJ_SIGNATURE:\n",
         "            if not signature.startswith(OBJ_SIGNATURE):\n"),
        ("            if len(signature) != OBJ_SIGNATURE_SIZE:\n",
         "            if len(signature) < OBJ_SIGNATURE_SIZE:\n")]},
    "reader8-type-check": {R: [
        ("            if obj_class is LogContainer:\n",
         "            if header_base.object_type == ObjType.LOG_CONTAINER:\n")]},
    "reader8-subclass-check": {R: [
        ("            if obj_class is LogContainer:\n",
         "            if issubclass(obj_class, LogContainer):\n")]},
    "reader8-object-first": {R: [
        ('''                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )
''', '''                uncompressed = LogContainer.unpack(obj_data).data
                if self.file_statistics.compression_level:
                    uncompressed = zlib.decompress(uncompressed)
''')]},
    "writer8-walrus-len": {W: [
        (FLUSH_IF, '''        if (self._buffer_size - len(self._buffer)) <= 0:
            self._flush_container()
''')]},
    "writer8-return-early": {W: [
        (FLUSH_IF, '''        if len(self._buffer) < self._buffer_size:
            return
        self._flush_container()
''')]},
    "writer8-size-first": {W: [
        ('''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
''', '''        declared, obj_data = obj.header.base.object_size, obj.pack()
        actual = len(obj_data)
        if not actual == declared:
            raise ValueError(f"Object size mismatch: {actual} != {declared}")
''')]},
}
