G = "src/vblf/general.py"
C = "src/vblf/can.py"
L = "src/vblf/lin.py"
E = "src/vblf/ethernet.py"
F = "src/vblf/flexray.py"
T = "src/vblf/tp_diag.py"
K = "src/vblf/constants.py"
R = "src/vblf/reader.py"

NAME_DATA = """        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]
"""
SIZE_BUF = """        buffer = bytearray(self.header.base.object_size)
        self.header.pack_into(buffer, 0)
"""

EDITS = {
    "codec-slice-helper": {G: [
        ("""@dataclass
class SystemTime:""", '''def _take(buffer: bytes, offset: int, length: int) -> tuple[bytes, int]:
    """Return *length* bytes at *offset* and the offset behind them."""
    end = offset + length
    return buffer[offset:end], end


@dataclass
class SystemTime:'''),
        (NAME_DATA, """        raw_name, end = _take(buffer, ObjectHeader.SIZE + cls._FORMAT.size, name_length)
        name = raw_name.decode("cp1252")
        data, _ = _take(buffer, end, data_length)
"""),
        (NAME_DATA, """        raw_name, end = _take(buffer, ObjectHeader.SIZE + cls._FORMAT.size, name_length)
        data, _ = _take(buffer, end, data_length)
        name = raw_name.decode("cp1252")
"""),
    ]},
    "codec-join": {G: [
        ("""        return (
            self.header.pack()
            + self._FORMAT.pack(
                self.object_type,
                self.ve_type,
                self.name_length,
                self.data_length,
            )
            + self.name.encode("cp1252")
            + self.data
        )
""", """        fixed = self._FORMAT.pack(
            self.object_type,
            self.ve_type,
            self.name_length,
            self.data_length,
        )
        return b"".join([self.header.pack(), fixed, self.name.encode("cp1252"), self.data])
"""),
        ("""            + self.group_name.encode("cp1252")
            + self.marker_name.encode("cp1252")
            + self.description.encode("cp1252")
""", """            + b"".join(
                text.encode("cp1252")
                for text in (self.group_name, self.marker_name, self.description)
            )
"""),
    ]},
    "codec-prepared-buffer": {G: [
        (SIZE_BUF, """        buffer = self._prepare_buffer()
"""),
        (SIZE_BUF, """        buffer = self._prepare_buffer()
"""),
        ("""    def pack(self) -> bytes:
        raise NotImplementedError


@dataclass
class NotImpl""", """    def pack(self) -> bytes:
        raise NotImplementedError

    def _prepare_buffer(self) -> bytearray:
        buffer = bytearray(self.header.base.object_size)
        self.header.pack_into(buffer, 0)
        return buffer


@dataclass
class NotImpl"""),
    ], L: [(SIZE_BUF, """        buffer = self._prepare_buffer()
""")], E: [(SIZE_BUF, """        buffer = self._prepare_buffer()
"""), (SIZE_BUF, """        buffer = self._prepare_buffer()
""")], F: [(SIZE_BUF, """        buffer = self._prepare_buffer()
""")], T: [(SIZE_BUF, """        buffer = self._prepare_buffer()
""")]},
    "codec-var-unpack": {G: [
        ("""        base = ObjectHeaderBase.unpack_from(buffer, 0)
        (
            object_flags,
            object_static_size,
            object_version,
            object_time_stamp,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeaderBase.SIZE)
        return cls(
            base,
            ObjFlags(object_flags),
            object_static_size,
            object_version,
            object_time_stamp,
        )

""", """        return cls.unpack_from(buffer)

"""),
        ("""        base = ObjectHeaderBase.unpack_from(buffer, 0)
        (
            object_flags,
            client_index,
            object_version,
            object_time_stamp,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeaderBase.SIZE)
        return cls(
            base,
            ObjFlags(object_flags),
            client_index,
            object_version,
            object_time_stamp,
        )

""", """        return cls.unpack_from(buffer, 0)

"""),
        ("""        return self.base.pack() + self._FORMAT.pack(
            self.object_flags,
            self.client_index,
            self.object_version,
            self.object_time_stamp,
        )
""", """        buffer = bytearray(self.SIZE)
        self.pack_into(buffer, 0)
        return bytes(buffer)
"""),
    ]},
    "codec-base-fields": {G: [
        ("""        (
            signature,
            header_size,
            header_version,
            object_size,
            object_type,
        ) = cls._FORMAT.unpack(buffer)
        return cls(
            signature,
            header_size,
            header_version,
            object_size,
            ObjType.from_int(object_type),
        )
""", """        return cls._from_fields(*cls._FORMAT.unpack(buffer))
"""),
        ("""        (
            signature,
            header_size,
            header_version,
            object_size,
            object_type,
        ) = cls._FORMAT.unpack_from(buffer, offset)
        return cls(
            signature,
            header_size,
            header_version,
            object_size,
            ObjType.from_int(object_type),
        )

    def pack(self) -> bytes:
        return self._FORMAT.pack(*self.__dict__.values())

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
""", """        return cls._from_fields(*cls._FORMAT.unpack_from(buffer, offset))

    @classmethod
    def _from_fields(
        cls,
        signature: bytes,
        header_size: int,
        header_version: int,
        object_size: int,
        object_type: int,
    ) -> Self:
        return cls(
            signature,
            header_size,
            header_version,
            object_size,
            ObjType.from_int(object_type),
        )

    def _fields(self) -> tuple[bytes, int, int, int, int]:
        return (
            self.signature,
            self.header_size,
            self.header_version,
            self.object_size,
            self.object_type,
        )

    def pack(self) -> bytes:
        return self._FORMAT.pack(*self._fields())

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self._FORMAT.pack_into(buffer, offset, *self._fields())
"""),
    ]},
    "codec-astuple": {G: [
        ("from dataclasses import dataclass\n", "from dataclasses import astuple, dataclass\n"),
        ("self._FORMAT.pack(*self.__dict__.values())", "self._FORMAT.pack(*astuple(self))"),
        ("return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())",
         "self._FORMAT.pack_into(buffer, offset, *astuple(self))"),
        ("self._FORMAT.pack(*self.__dict__.values())", "self._FORMAT.pack(*vars(self).values())"),
    ]},
    "codec-star-fields": {C: [
        ("""        (
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        )
""", """        return cls(header, *cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE))
"""),
        ("""            reserved2,
            reserved3_0,
            reserved3_1,
            reserved3_2,
            reserved3_3,
        ) = cls""", """            reserved2,
            *reserved3,
        ) = cls"""),
        ("            [reserved3_0, reserved3_1, reserved3_2, reserved3_3],\n",
         "            reserved3,\n"),
        ("""            self.reserved3[0],
            self.reserved3[1],
            self.reserved3[2],
            self.reserved3[3],
""", """            *self.reserved3[:4],
"""),
        ("""        channel, length, reserved = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(header, channel, length, reserved)
""", """        fields = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(header, fields[0], fields[1], fields[2])
"""),
        ("""        channel, reserved1, reserved2 = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(header, channel, reserved1, reserved2)
""", """        names = ("channel", "reserved1", "reserved2")
        values = dict(zip(names, cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)))
        return cls(header=header, **values)
"""),
    ]},
    "can-fd64-ext": {C: [
        ("""        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_length = (ext_data_offset or header.base.object_size) - data_offset
        data = buffer[data_offset : data_offset + data_length]

        # get ext frame data
        btr_ext_arb, btr_ext_data = 0, 0
        if (
            ext_data_offset != 0
            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
        ):
            btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
""", """        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_end = ext_data_offset if ext_data_offset > 0 else header.base.object_size
        data = buffer[data_offset:data_end]

        # get ext frame data
        if cls._has_ext_data(header, ext_data_offset):
            btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
        else:
            btr_ext_arb = btr_ext_data = 0
"""),
        ("""        if (
            self.ext_data_offset != 0
            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
        ):
            self._FORMAT_EXT.pack_into(
                buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
            )
        return bytes(buffer)
""", """        if self._has_ext_data(self.header, self.ext_data_offset):
            offset = self.ext_data_offset
            self._FORMAT_EXT.pack_into(buffer, offset, self.btr_ext_arb, self.btr_ext_data)
        return bytes(buffer)

    @classmethod
    def _has_ext_data(cls, header: ObjectHeader, ext_data_offset: int) -> bool:
        if ext_data_offset == 0:
            return False
        return ext_data_offset + cls._FORMAT_EXT.size <= header.base.object_size
"""),
    ]},
    "can-new-locals": {C: [
        ("""        header = ObjectHeader.new(
            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_MESSAGE,
            object_flags,
            0,
            object_time_stamp,
        )
        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            data,
        )
""", """        object_size = ObjectHeader.SIZE + struct.calcsize(cls._FORMAT.format)
        return cls(
            header=ObjectHeader.new(
                object_size=object_size,
                object_type=ObjType.CAN_MESSAGE,
                object_flags=object_flags,
                object_version=0,
                object_time_stamp=object_time_stamp,
            ),
            channel=channel,
            flags=flags,
            dlc=dlc,
            frame_id=frame_id,
            data=data,
        )
"""),
        ("""        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            frame_length,
            arb_bit_count,
            canfd_flags,
            len(data),
            0,
            0,
            data,
            0,
        )
""", """        message = cls(
            header, channel, flags, dlc, frame_id, frame_length, arb_bit_count, canfd_flags,
            valid_data_bytes=0, reserved1=0, reserved2=0, data=data, reserved3=0,
        )
        message.valid_data_bytes = len(message.data)
        return message
"""),
    ]},
    "lin-optional": {L: [
        ("""        if header.base.object_size >= cls._V2_SIZE:
            (resp_baudrate,) = cls._FORMAT_V2.unpack_from(buffer, cls._V1_SIZE)
        else:
            resp_baudrate = 0

        if header.base.object_size >= cls._V3_SIZE:
            (
                exact_header_baudrate,
                early_stopbit_offset,
                early_stopbit_offset_response,
            ) = cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE)
        else:
            exact_header_baudrate = 0
            early_stopbit_offset = 0
            early_stopbit_offset_response = 0
""", """        size = header.base.object_size
        resp_baudrate = 0
        v3_fields = (0, 0, 0)
        if size >= cls._V2_SIZE:
            resp_baudrate = cls._FORMAT_V2.unpack_from(buffer, cls._V1_SIZE)[0]
            if size >= cls._V3_SIZE:
                v3_fields = cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE)
"""),
        ("""            resp_baudrate,
            exact_header_baudrate,
            early_stopbit_offset,
            early_stopbit_offset_response,
        )

    def pack""", """            resp_baudrate,
            *v3_fields,
        )

    def pack"""),
        ("""        (
            synch_break_length,
            synch_del_length,
        ) = cls._FORMAT.unpack_from(buffer, offset + LinBusEvent.SIZE)
        return cls(
            lin_bus_event,
            synch_break_length,
            synch_del_length,
        )
""", """        offset += LinBusEvent.SIZE
        lengths = cls._FORMAT.unpack_from(buffer, offset)
        return cls(lin_bus_event, lengths[0], lengths[1])
"""),
        ("""        self.lin_msg_descr_event.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer, offset + LinMessageDescriptor.SIZE, *self.databyte_timestamps
        )
""", """        stamps_offset = offset + LinMessageDescriptor.SIZE
        self._FORMAT.pack_into(buffer, stamps_offset, *self.databyte_timestamps)
        self.lin_msg_descr_event.pack_into(buffer, offset)
"""),
    ]},
    "ethernet-slice": {E: [
        ("""        available_bytes = min(frame_length, len(buffer) - data_offset)
        data_bytes = buffer[data_offset : data_offset + available_bytes]
""", """        data_end = min(data_offset + frame_length, len(buffer))
        data_bytes = buffer[data_offset:data_end]
"""),
        ("""        buffer[data_offset : data_offset + len(self.frame_data)] = self.frame_data

        return bytes(buffer)
""", """        data_end = data_offset + len(self.frame_data)
        buffer[data_offset:data_end] = self.frame_data
        packed = bytes(buffer)
        return packed
"""),
    ], F: [
        ("""        available_bytes = min(data_count, len(buffer) - data_offset)
        data_bytes = buffer[data_offset : data_offset + available_bytes]
""", """        data_bytes = buffer[data_offset:][:data_count]
"""),
    ]},
    "diag-loop": {T: [
        ("""        ecu_qualifier_offset = ObjectHeader.SIZE + cls._FORMAT.size
        variant_qualifier_offset = ecu_qualifier_offset + ecu_qualifier_length
        service_qualifier_offset = variant_qualifier_offset + variant_qualifier_length

        ecu_qualifier = buffer[
            ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length
        ].decode("utf-8")
        variant_qualifier = buffer[
            variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
        ].decode("utf-8")
        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
""", """        offset = ObjectHeader.SIZE + cls._FORMAT.size
        qualifiers = []
        for length in (
            ecu_qualifier_length,
            variant_qualifier_length,
            service_qualifier_length,
        ):
            qualifiers.append(str(buffer[offset : offset + length], "utf-8"))
            offset += length
        ecu_qualifier, variant_qualifier, service_qualifier = qualifiers
"""),
        ("""        ecu_qualifier_offset = ObjectHeader.SIZE + self._FORMAT.size
        variant_qualifier_offset = ecu_qualifier_offset + self.ecu_qualifier_length
        service_qualifier_offset = variant_qualifier_offset + self.variant_qualifier_length

        buffer[ecu_qualifier_offset : ecu_qualifier_offset + self.ecu_qualifier_length] = (
            self.ecu_qualifier.encode("utf-8")
        )
        buffer[
            variant_qualifier_offset : variant_qualifier_offset + self.variant_qualifier_length
        ] = self.variant_qualifier.encode("utf-8")
        buffer[
            service_qualifier_offset : service_qualifier_offset + self.service_qualifier_length
        ] = self.service_qualifier.encode("utf-8")
""", """        offset = ObjectHeader.SIZE + self._FORMAT.size
        for length, text in (
            (self.ecu_qualifier_length, self.ecu_qualifier),
            (self.variant_qualifier_length, self.variant_qualifier),
            (self.service_qualifier_length, self.service_qualifier),
        ):
            buffer[offset : offset + length] = text.encode("utf-8")
            offset += length
"""),
    ]},
    "const-members": {K: [
        ("""        try:
            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
""", """        if object_type in ObjType._value2member_map_:
            return ObjType(object_type)
        return ObjType.UNKNOWN
"""),
        ("""        try:
            return AppId(application_id)
        except ValueError:
            return AppId.UNKNOWN
""", """        for member in AppId:
            if member.value == application_id:
                return member
        return AppId.UNKNOWN
"""),
        ("""        try:
            return Compression(compression_level)
        except ValueError:
            return compression_level
""", """        result: Compression | int = compression_level
        try:
            result = Compression(compression_level)
        except ValueError:
            pass
        return result
"""),
    ]},
    "const-table": {K: [
        ("""        try:
            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
""", """        return _OBJ_TYPES.get(object_type, ObjType.UNKNOWN)
"""),
        ("""class AppId(IntEnum):""", """_OBJ_TYPES = {member.value: member for member in ObjType}


class AppId(IntEnum):"""),
        ("""            return Compression(compression_level)
        except ValueError:
            return compression_level
""", """            level = Compression(compression_level)
        except ValueError:
            return compression_level
        else:
            return level
"""),
    ]},
    "time-locals": {G: [
        ("""        if not dt:
            dt = datetime.datetime.now(tz=datetime.timezone.utc)
""", """        if dt is None:
            dt = datetime.datetime.now(datetime.timezone.utc)
        milliseconds = round(dt.microsecond / 1000)
        if milliseconds > 999:
            milliseconds = 999
"""),
        ("(dt.weekday() + 1) % 7", "dt.isoweekday() % 7"),
        ("            min(999, round(dt.microsecond / 1000.0)),\n", "            milliseconds,\n"),
        ("""            min(999999, self.milliseconds * 1000),
        )
""", """            microsecond=min(self.milliseconds * 1000, 999_999),
        )
"""),
    ]},
    "stats-constants": {G: [
        ("""    SIZE: ClassVar[int] = _FORMAT.size
    signature: bytes
    statistics_size: int
""", """    SIZE: ClassVar[int] = _FORMAT.size
    _MEASUREMENT_START_OFFSET: ClassVar[int] = 40
    _LAST_OBJECT_OFFSET: ClassVar[int] = _MEASUREMENT_START_OFFSET + 16
    signature: bytes
    statistics_size: int
"""),
        ("""        measurement_start_time = SystemTime.unpack_from(buffer, 40)
        last_object_time = SystemTime.unpack_from(buffer, 56)
""", """        start, last = cls._MEASUREMENT_START_OFFSET, cls._LAST_OBJECT_OFFSET
        measurement_start_time = SystemTime.unpack(buffer[start:last])
        last_object_time = SystemTime.unpack(buffer[last : last + 16])
"""),
        ("""        self.measurement_start_time.pack_into(buffer, 40)
        self.last_object_time.pack_into(buffer, 56)
""", """        last = self._LAST_OBJECT_OFFSET
        buffer[last : last + 16] = self.last_object_time.pack()
        self.measurement_start_time.pack_into(buffer, self._MEASUREMENT_START_OFFSET)
"""),
        ("""        major_version, minor_version, *_ = __version__.split(".")
""", """        version = __version__.split(".")
        major_version, minor_version = version[:2]
        now = SystemTime.from_datetime()
"""),
        ("measurement_start_time=SystemTime.from_datetime(),", "measurement_start_time=now,"),
    ]},
    "little-endian": {C: [
        ('struct.Struct("HBBI8s")', 'struct.Struct("<HBBI8s")'),
        ('struct.Struct("HBBI8sIBBH")', 'struct.Struct("<HBBI8sIBBH")'),
        ('struct.Struct("HBBIIBBBBI64sI")', 'struct.Struct("<HBBIIBBBBI64sI")'),
    ], G: [
        ('struct.Struct("4sHHII")', 'struct.Struct("<4sHHII")'),
        ('struct.Struct("HHHHHHHH")', 'struct.Struct("<8H")'),
        ('struct.Struct("4sIIBBBBQQII32xQ64s")', 'struct.Struct("<4sIIBBBBQQII32xQ64s")'),
    ], L: [
        ('struct.Struct("HHBBBB")', 'struct.Struct("<HH4B")'),
        ('struct.Struct("9Q")', 'struct.Struct("<9Q")'),
    ]},
    "container-from-new": {G: [
        ("""        base = ObjectHeaderBase(
            signature=OBJ_SIGNATURE,
            header_size=ObjectHeader.SIZE,
            header_version=1,
            object_size=ObjectHeader.SIZE + len(data),
            object_type=ObjType.LOG_CONTAINER,
        )
        header = ObjectHeader(
            base=base,
            object_flags=flags,
            client_index=client_index,
            object_version=0,
            object_time_stamp=time_stamp,
        )
        return cls(
            header=header,
            data=data,
        )
""", """        header = ObjectHeader.new(
            object_size=ObjectHeader.SIZE + len(data),
            object_type=ObjType.LOG_CONTAINER,
            object_flags=flags,
            object_version=0,
            object_time_stamp=time_stamp,
        )
        header.client_index = client_index
        return cls(header, data)
"""),
        ("""        header = cls(
            base,
            object_flags,
            0,
            object_version,
            object_time_stamp,
        )
        return header
""", """        return cls(
            base=base,
            object_flags=object_flags,
            client_index=0,
            object_version=object_version,
            object_time_stamp=object_time_stamp,
        )
"""),
    ]},
    "codec-memoryview": {G: [
        (NAME_DATA, """        view = memoryview(buffer)
        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = bytes(view[name_offset : name_offset + name_length]).decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = bytes(view[data_offset : data_offset + data_length])
"""),
        ("""        text_offset = ObjectHeader.SIZE + cls._FORMAT.size
        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
""", """        rest = buffer[ObjectHeader.SIZE + cls._FORMAT.size :]
        text = rest[:text_length].decode(encoding="cp1252")
"""),
        ("""        text_offset = ObjectHeader.SIZE + cls._FORMAT.size
        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
""", """        text_start = ObjectHeader.SIZE + cls._FORMAT.size
        text_end = text_start + text_length - 1
        text = buffer[text_start:text_end].decode("cp1252")
"""),
        ("""        encoded_text = self.text.encode("cp1252")
        if self.text_length > 0:
            encoded_text += b"\\x00"
        text_offset""", """        encoded_text = self.text.encode("cp1252")
        encoded_text = encoded_text + (b"\\x00" if self.text_length else b"")
        text_offset"""),
    ]},
    "codec-pack-into": {G: [
        ("""        return self.header.pack() + self._FORMAT.pack(self.time, self.logging_offset)
""", """        buffer = bytearray(ObjectHeader.SIZE + self._FORMAT.size)
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(buffer, ObjectHeader.SIZE, self.time, self.logging_offset)
        return bytes(buffer)
"""),
        ("""        return self.header.pack() + self._FORMAT.pack(
            self.bus_type,
            self.channel,
            self.reserved,
        )
""", """        buffer = bytearray()
        buffer += self.header.pack()
        buffer.extend(self._FORMAT.pack(self.bus_type, self.channel, self.reserved))
        return bytes(buffer)
"""),
        ("""        base = ObjectHeaderBase.unpack_from(buffer, 0)
        header = HeaderWithBase(base)
        return cls(header, buffer)
""", """        return cls(header=HeaderWithBase(ObjectHeaderBase.unpack_from(buffer)), buffer=buffer)
"""),
    ], C: [
        ("""        return self.header.pack() + self._FORMAT.pack(
            self.channel, self.flags, self.reserved1, self.reserved2
        )
""", """        header, fmt = self.header.pack(), self._FORMAT
        return b"%b%b" % (header, fmt.pack(self.channel, self.flags, self.reserved1, self.reserved2))
"""),
        ("""        return self.header.pack() + self._FORMAT.pack(self.channel, self.length, self.reserved)
""", """        values = [getattr(self, name) for name in ("channel", "length", "reserved")]
        return self.header.pack() + self._FORMAT.pack(*values)
"""),
    ]},
}
