R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
G = "src/vblf/general.py"
C = "src/vblf/can.py"
L = "src/vblf/lin.py"
E = "src/vblf/ethernet.py"
F = "src/vblf/flexray.py"
T = "src/vblf/tp_diag.py"
K = "src/vblf/constants.py"
EDITS = {
    "reader4-walrus": {R: [("""        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature""", """        while len(signature := stream.read(OBJ_SIGNATURE_SIZE)) == OBJ_SIGNATURE_SIZE:
            # find start of next object (search for b"LOBJ")
            if signature"""), ("""                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
""", """                self._incomplete_data = header_base_data
                return
            header_base = ObjectHeaderBase.unpack(header_base_data)
"""), ("""                self._incomplete_data = obj_data
                break
""", """                self._incomplete_data = obj_data
                return
"""), ("""            else:
                yield obj_class.unpack(obj_data)
""", """            else:
                yield obj_class.unpack(obj_data)

        self._incomplete_data = signature
""")]},
    "reader4-finish-helper": {R: [("""            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
""", """            if self._is_cut(signature, OBJ_SIGNATURE_SIZE):
                return
"""), ("""            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
""", """            if self._is_cut(header_base_data, ObjectHeaderBase.SIZE):
                return
            header_base = ObjectHeaderBase.unpack(header_base_data)
"""), ("""            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
""", """            if self._is_cut(obj_data, header_base.object_size):
                return
"""), ("""    def read_object(self)""", """    def _is_cut(self, data: bytes, size: int) -> bool:
        \"\"\"Keep the data if it is shorter than it should be.\"\"\"
        if len(data) >= size:
            return False
        self._incomplete_data = data
        return True

    def read_object(self)""")]},
    "reader4-decompressobj": {R: [("""                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )
""", """                if self.file_statistics.compression_level > 0:
                    decompressor = zlib.decompressobj()
                    uncompressed = decompressor.decompress(container.data)
                    uncompressed += decompressor.flush()
                else:
                    uncompressed = container.data
""")]},
    "reader4-early-container": {R: [("""            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )

            if obj_class is LogContainer:
""", """            if header_base.object_type == ObjType.LOG_CONTAINER:
"""), ("""            else:
                yield obj_class.unpack(obj_data)
""", """                continue

            # find class for given object_type
            obj_class = OBJ_MAP.get(header_base.object_type)
            if obj_class is None:
                obj_class = NotImplementedObject
            yield obj_class.unpack(obj_data)
""")]},
    "reader4-compressed-flag": {R: [("""        self._incomplete_data: bytes = b""
""", """        self._compressed = self.file_statistics.compression_level != 0
        self._incomplete_data: bytes = b""
"""), ("""                    if self.file_statistics.compression_level > 0
""", """                    if self._compressed
""")]},
    "reader4-map-comprehension": {R: [("""            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
""", """            obj_class = SUPPORTED.get(header_base.object_type, NotImplementedObject)
"""), ("""    ObjType.TRIGGER_CONDITION: TriggerCondition,
}
""", """    ObjType.TRIGGER_CONDITION: TriggerCondition,
}

SUPPORTED: Final = {code: cls for code, cls in OBJ_MAP.items() if cls is not None}
""")]},
    "reader4-open-helper": {R: [("""        if isinstance(file, (str, bytes, os.PathLike)):
            self._file = open(file, "rb")  # noqa: SIM115
        elif isinstance(file, bytes):
            self._file = BytesIO(file)
        elif hasattr(file, "read"):
            self._file = file
        else:
            err_msg = "Unsupported type {type(file)}"
            raise TypeError(err_msg)

        obj_data = self._file.read(FileStatistics.SIZE)
        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
            err_msg = "Unexpected file format"
            raise ValueError(err_msg)

        self.file_statistics = FileStatistics.unpack(obj_data)
""", """        self._file = self._open(file)
        self.file_statistics = self._read_statistics()
"""), ("""    def _generate_objects(self""", """    @staticmethod
    def _open(file: Any) -> BinaryIO:
        if isinstance(file, (str, bytes, os.PathLike)):
            return open(file, "rb")
        if not hasattr(file, "read"):
            err_msg = f"Unsupported type {type(file)}"
            raise TypeError(err_msg)
        return file

    def _read_statistics(self) -> FileStatistics:
        block = self._file.read(FileStatistics.SIZE)
        signature = block[: len(FILE_SIGNATURE)]
        if signature == FILE_SIGNATURE and len(block) >= FileStatistics.SIZE:
            return FileStatistics.unpack(block)
        err_msg = "Unexpected file format"
        raise ValueError(err_msg)

    def _generate_objects(self""")]},
    "writer4-padding-function": {W: [("""class BlfWriter(""", """def _padding(size: int) -> bytes:
    \"\"\"Zero bytes up to the next multiple of the alignment.\"\"\"
    return bytes(-size % BYTE_ALIGNMENT)


class BlfWriter("""), ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._buffer += _padding(len(self._buffer))
"""), ("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._file.write(_padding(self._file.tell()))
""")]},
    "writer4-ceil": {W: [("import os\n", "import math\nimport os\n"),
                         ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        aligned = math.ceil(len(self._buffer) / BYTE_ALIGNMENT) * BYTE_ALIGNMENT
        self._buffer.extend(b"\\x00" * (aligned - len(self._buffer)))
""")]},
    "writer4-floor-align": {W: [("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        pos = self._file.tell()
        aligned = (pos + BYTE_ALIGNMENT - 1) // BYTE_ALIGNMENT * BYTE_ALIGNMENT
        if aligned > pos:
            self._file.write(bytes(aligned - pos))
""")]},
    "writer4-mask-align": {W: [("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        rest = len(self._buffer) & (BYTE_ALIGNMENT - 1)
        if rest != 0:
            self._buffer.extend(bytes(BYTE_ALIGNMENT - rest))
""")]},
    "writer4-compressobj": {W: [("""            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
""", """            compressor = zlib.compressobj(self._file_statistics.compression_level)
            compressed_data = compressor.compress(buffer) + compressor.flush()
""")]},
    "writer4-joined-write": {W: [("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        padding = b""
        if rest := self._file.tell() % BYTE_ALIGNMENT:
            padding = b"\\x00" * (BYTE_ALIGNMENT - rest)
"""), ("""        self._file.write(log_container.pack())
""", """        self._file.write(padding + log_container.pack())
""")]},
    "writer4-close-order": {W: [("""        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
""", """        if self._file.closed:
            return
        self._finalize()
        self._file.close()

    def _finalize(self) -> None:
        \"\"\"Write what is pending and the final statistics.\"\"\"
        while len(self._buffer) > 0:
            self._flush_container()
        self._update_file_statistics()
""")]},
    "writer4-size-locals": {W: [("""        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
""", """        obj_data = obj.pack()
        actual, declared = len(obj_data), obj.header.base.object_size
        if actual != declared:
            err_msg = f"Object size mismatch: {actual} != {declared}"
            raise ValueError(err_msg)
        self._time_of_last_object = time.time()
        self._buffer += obj_data
        self._count(actual)

        if self._is_full():
            self._flush_container()

    def _count(self, size: int) -> None:
        statistics = self._file_statistics
        statistics.uncompressed_file_size += size
        statistics.object_count += 1

    def _is_full(self) -> bool:
        return not len(self._buffer) < self._buffer_size
""")]},
    "writer4-exit-finally": {W: [("""        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
""", """        if not self._file.closed:
            try:
                while self._buffer:
                    self._flush_container()
                self._update_file_statistics()
            finally:
                self._file.close()
""")]},
    "writer4-utc-now": {W: [("""        self._file_statistics.last_object_time = SystemTime.from_datetime(
            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
        )
""", """        utc = datetime.timezone.utc
        last = datetime.datetime.fromtimestamp(self._time_of_last_object, tz=utc)
        self._file_statistics.last_object_time = SystemTime.from_datetime(dt=last)
""")]},
    "general4-divmod": {G: [("""        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
            dt.day,
            dt.hour,
            dt.minute,
            dt.second,
            min(999, round(dt.microsecond / 1000.0)),
        )
""", """        milliseconds, rest = divmod(dt.microsecond, 1000)
        if rest > 500 or (rest == 500 and milliseconds % 2 == 1):
            milliseconds += 1
        return cls(
            year=dt.year,
            month=dt.month,
            day_of_week=dt.isoweekday() % 7,
            day=dt.day,
            hour=dt.hour,
            minute=dt.minute,
            second=dt.second,
            milliseconds=min(milliseconds, 999),
        )
""")]},
    "general4-int-round": {G: [("""            min(999, round(dt.microsecond / 1000.0)),
""", """            min(999, int(round(dt.microsecond * 0.001))),
""")]},
    "general4-weekday-ordinal": {G: [("""            (dt.weekday() + 1) % 7,
""", """            dt.toordinal() % 7,
""")]},
    "general4-weekday-sakamoto": {G: [("""            (dt.weekday() + 1) % 7,
""", """            cls._day_of_week(dt.year, dt.month, dt.day),
"""), ("""    def to_datetime(self)""", """    @staticmethod
    def _day_of_week(year: int, month: int, day: int) -> int:
        if month < 3:
            year -= 1
        shift = (0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)[month - 1]
        return (year + year // 4 - year // 100 + year // 400 + shift + day) % 7

    def to_datetime(self)""")]},
    "general4-weekday-zeller": {G: [("""            (dt.weekday() + 1) % 7,
""", """            cls._day_of_week(dt.year, dt.month, dt.day),
"""), ("""    def to_datetime(self)""", """    @staticmethod
    def _day_of_week(year: int, month: int, day: int) -> int:
        if month < 3:
            year, month = year - 1, month + 12
        century, year = divmod(year, 100)
        h = day + 13 * (month + 1) // 5 + year + year // 4 + century // 4 - 2 * century
        return (h + 6) % 7

    def to_datetime(self)""")]},
    "general4-weekday-tuple": {G: [("""            (dt.weekday() + 1) % 7,
""", """            (dt.timetuple().tm_wday + 1) % 7,
""")]},
    "general4-weekday-iso": {G: [("""            (dt.weekday() + 1) % 7,
""", """            dt.date().isocalendar()[2] % 7,
""")]},
    "general4-weekday-calendar": {G: [("""            (dt.weekday() + 1) % 7,
""", """            (calendar.weekday(dt.year, dt.month, dt.day) + 1) % 7,
"""), ("import datetime\n", "import calendar\nimport datetime\n")]},
    "general4-none-check": {G: [("""        if not dt:
            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        return cls(
""", """        if dt is None:
            dt = datetime.datetime.now(datetime.timezone.utc)
        millis = round(dt.microsecond / 1000)
        if millis > 999:
            millis = 999
        return cls(
"""), ("""            min(999, round(dt.microsecond / 1000.0)),
""", """            millis,
""")]},
    "general4-to-datetime": {G: [("""        return datetime.datetime(
            self.year,
            self.month,
            self.day,
            self.hour,
            self.minute,
            self.second,
            min(999999, self.milliseconds * 1000),
        )
""", """        microsecond = 1000 * self.milliseconds
        return datetime.datetime(
            year=self.year,
            month=self.month,
            day=self.day,
            hour=self.hour,
            minute=self.minute,
            second=self.second,
            microsecond=999999 if microsecond > 999999 else microsecond,
        )
""")]},
    "const4-member-map": {K: [("""        try:
            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
""", """        if object_type in ObjType._value2member_map_:
            return ObjType(object_type)
        return ObjType.UNKNOWN
"""), ("""        try:
            return Compression(compression_level)
        except ValueError:
            return compression_level
""", """        for level in Compression:
            if level == compression_level:
                return level
        return compression_level
"""), ("""        try:
            return AppId(application_id)
        except ValueError:
            return AppId.UNKNOWN
""", """        return next((a for a in AppId if a.value == application_id), AppId.UNKNOWN)
""")]},
    "const4-missing": {K: [("""    @staticmethod
    def from_int(object_type: int) -> "ObjType":
        try:
            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
""", """    @classmethod
    def from_int(cls, object_type: int) -> "ObjType":
        return cls._value2member_map_.get(object_type, cls.UNKNOWN)
""")]},
    "codec4-text-helper": {G: [("""        # get group_name
        group_name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        _group_name = buffer[group_name_offset : group_name_offset + group_name_length]
        group_name = _group_name.decode("cp1252")

        # get marker_name
        marker_name_offset = group_name_offset + group_name_length
        _marker_name = buffer[marker_name_offset : marker_name_offset + marker_name_length]
        marker_name = _marker_name.decode("cp1252")

        # get marker_name
        description_offset = marker_name_offset + marker_name_length
        _description = buffer[description_offset : description_offset + description_length]
        description = _description.decode("cp1252")
""", """        # get the texts
        end = ObjectHeader.SIZE + cls._FORMAT.size
        texts = []
        for length in (group_name_length, marker_name_length, description_length):
            start, end = end, end + length
            texts.append(buffer[start:end].decode("cp1252"))
        group_name, marker_name, description = texts
""")]},
    "codec4-lin-sizes": {L: [("""        if header.base.object_size >= cls._V2_SIZE:
            (resp_baudrate,) = cls._FORMAT_V2.unpack_from(buffer, cls._V1_SIZE)
        else:
            resp_baudrate = 0

        if header.base.object_size >= cls._V3_SIZE:
            (
                exact_header_baudrate,
                early_stopbit_offset,
                early_stopbit_offset_response,
            ) = cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE)
        else:
            exact_header_baudrate = 0
            early_stopbit_offset = 0
            early_stopbit_offset_response = 0
""", """        size = header.base.object_size
        resp_baudrate = 0
        if not size < cls._V2_SIZE:
            resp_baudrate = cls._FORMAT_V2.unpack_from(buffer, cls._V1_SIZE)[0]

        exact_header_baudrate, early_stopbit_offset, early_stopbit_offset_response = (
            cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE) if size >= cls._V3_SIZE else (0, 0, 0)
        )
""")]},
    "codec4-driver-error-slice": {C: [("""            reserved2,
            reserved3_0,
            reserved3_1,
            reserved3_2,
            reserved3_3,
        ) = cls._FORMAT""", """            reserved2,
            *reserved3,
        ) = cls._FORMAT"""), ("""            [reserved3_0, reserved3_1, reserved3_2, reserved3_3],
""", """            reserved3,
"""), ("""            self.reserved3[0],
            self.reserved3[1],
            self.reserved3[2],
            self.reserved3[3],
""", """            *self.reserved3,
""")]},
    "codec4-event-comment": {G: [("""        buffer = bytearray(self.header.base.object_size)
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.commented_event_type,
            self.text_length,
            self.reserved,
        )
        encoded_text = self.text.encode("cp1252")
        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[text_offset : text_offset + self.text_length] = encoded_text
        return bytes(buffer)
""", """        fixed = self._FORMAT.pack(self.commented_event_type, self.text_length, self.reserved)
        packed = self.header.pack() + fixed + self.text.encode("cp1252")
        return packed.ljust(self.header.base.object_size, b"\\x00")
""")]},
    "codec4-container-super": {G: [("""        base = ObjectHeaderBase(
            signature=OBJ_SIGNATURE,
            header_size=ObjectHeader.SIZE,
            header_version=1,
            object_size=ObjectHeader.SIZE + len(data),
            object_type=ObjType.LOG_CONTAINER,
        )
        header = ObjectHeader(
            base=base,
            object_flags=flags,
            client_index=client_index,
            object_version=0,
            object_time_stamp=time_stamp,
        )
        return cls(
            header=header,
            data=data,
        )
""", """        header = ObjectHeader.new(
            object_size=ObjectHeader.SIZE + len(data),
            object_type=ObjType.LOG_CONTAINER,
            object_flags=flags,
            object_version=0,
            object_time_stamp=time_stamp,
        )
        header.client_index = client_index
        return cls(header, data)
""")]},
    "codec4-stat-times": {G: [("""        measurement_start_time = SystemTime.unpack_from(buffer, 40)
        last_object_time = SystemTime.unpack_from(buffer, 56)
""", """        measurement_start_time = SystemTime.unpack(buffer[40:56])
        last_object_time = SystemTime.unpack(buffer[56:72])
"""), ("""        self.measurement_start_time.pack_into(buffer, 40)
        self.last_object_time.pack_into(buffer, 56)
        return bytes(buffer)
""", """        for time, offset in ((self.measurement_start_time, 40), (self.last_object_time, 56)):
            buffer[offset : offset + 16] = time.pack()
        return bytes(buffer)
""")]},
    "codec4-diag-format": {T: [("""        ecu_qualifier_offset = ObjectHeader.SIZE + cls._FORMAT.size
        variant_qualifier_offset = ecu_qualifier_offset + ecu_qualifier_length
        service_qualifier_offset = variant_qualifier_offset + variant_qualifier_length

        ecu_qualifier = buffer[
            ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length
        ].decode("utf-8")
        variant_qualifier = buffer[
            variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
        ].decode("utf-8")
        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
""", """        def text(offset: int, length: int) -> str:
            return str(buffer[offset : offset + length], "utf-8")

        first = ObjectHeader.SIZE + cls._FORMAT.size
        second = first + ecu_qualifier_length
        third = second + variant_qualifier_length
        ecu_qualifier = text(first, ecu_qualifier_length)
        variant_qualifier = text(second, variant_qualifier_length)
        service_qualifier = text(third, service_qualifier_length)
""")]},
    "codec4-flexray-slice": {F: [("""        available_bytes = min(data_count, len(buffer) - data_offset)
        data_bytes = buffer[data_offset : data_offset + available_bytes]
""", """        data_bytes = buffer[data_offset:][:data_count]
""")]},
    "codec4-opaque": {G: [("""        base = ObjectHeaderBase.unpack_from(buffer, 0)
        header = HeaderWithBase(base)
        return cls(header, buffer)
""", """        base = ObjectHeaderBase.unpack(buffer[: ObjectHeaderBase.SIZE])
        return cls(header=HeaderWithBase(base=base), buffer=buffer)
""")]},
    "codec4-apptext": {G: [("""        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
""", """        text_end = text_offset + max(text_length, 1) - 1
        text = buffer[text_offset:text_end].decode("cp1252")
"""), ("""        encoded_text = self.text.encode("cp1252")
        if self.text_length > 0:
            encoded_text += b"\\x00"
        text_offset""", """        encoded_text = self.text.encode("cp1252") + bytes(min(self.text_length, 1))
        text_offset""")]},
}
