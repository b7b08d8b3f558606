R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
G = "src/vblf/general.py"
BUF = "        self._buffer_size = buffer_size\n"
COMP = '''        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0
'''
FLUSH_IF = '''        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
'''
SPLIT = ("        buffer, self._buffer = self._buffer[: self._buffer_size], "
         "self._buffer[self._buffer_size :]\n")
EDITS = {
    "writer6-max-size": {W: [(BUF, "        self._buffer_size = max(buffer_size, 1)\n")]},
    "writer6-clamped-size": {W: [(BUF, BUF + '''        if self._buffer_size < 1:
            self._buffer_size = 1
''')]},
    "writer6-method-field": {W: [
        (BUF, BUF + "        self._method = 2 if compression_level > Compression.NONE else 0\n"),
        (COMP, '''        compression_method = self._method
        if compression_method:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
        else:
            compressed_data = bytes(buffer)
''')]},
    "writer6-method-branch": {W: [
        (BUF, BUF + '''        if compression_level == Compression.NONE:
            self._method = 0
        else:
            self._method = 2
'''),
        (COMP, '''        compression_method = self._method
        if compression_method == 2:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
        else:
            compressed_data = bytes(buffer)
''')]},
    "writer6-compress-function": {W: [
        (BUF, BUF + '''        self._compress = (
            self._deflate if compression_level > Compression.NONE else self._store
        )
'''),
        ('''    def _flush_container(self) -> None:
''', '''    def _deflate(self, data: bytes) -> tuple[bytes, int]:
        return zlib.compress(data, level=self._file_statistics.compression_level), 2

    @staticmethod
    def _store(data: bytes) -> tuple[bytes, int]:
        return bytes(data), 0

    def _flush_container(self) -> None:
'''),
        (COMP, "        compressed_data, compression_method = self._compress(buffer)\n")]},
    "writer6-flags-constant": {W: [
        (COMP, '''        level = self._file_statistics.compression_level
        if level != 0:
            compressed_data, compression_method = zlib.compress(bytes(buffer), level), 2
        else:
            compressed_data, compression_method = bytes(buffer), 0
''')]},
    "writer6-full-property": {W: [
        (FLUSH_IF, '''        if self._is_full:
            self._flush_container()

    @property
    def _is_full(self) -> bool:
        return not len(self._buffer) < self._buffer_size
''')]},
    "writer6-padding-property": {W: [
        ('''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
''', '''        self._buffer += self._padding(len(self._buffer))
'''),
        ('''        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''', '''        self._file.write(self._padding(self._file.tell()))
'''),
        ('''    def _flush_container(self) -> None:
''', '''    @staticmethod
    def _padding(position: int) -> bytes:
        return bytes((BYTE_ALIGNMENT - position) % BYTE_ALIGNMENT)

    def _flush_container(self) -> None:
''')]},
    "writer6-flush-returns": {W: [
        ('''        if not self._buffer:
            return

        # byte''', '''        if len(self._buffer) == 0:
            return False

        # byte'''),
        ('''        self._file_statistics.file_size = self._file.tell()
''', '''        self._file_statistics.file_size = self._file.tell()
        return bool(self._buffer)
'''),
        ("def _flush_container(self) -> None:", "def _flush_container(self) -> bool:"),
        ('''            while self._buffer:
                self._flush_container()
''', '''            while self._flush_container():
                pass
''')]},
    "writer6-split-inplace": {W: [
        (SPLIT, '''        buffer = bytes(self._buffer[: self._buffer_size])
        del self._buffer[: len(buffer)]
''')]},
    "writer6-closed-flag": {W: [
        (BUF, BUF + "        self._done = False\n"),
        ('''        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
''', '''        if self._done or self._file.closed:
            return
        while self._buffer:
            self._flush_container()
        self._update_file_statistics()
        self._file.close()
        self._done = True
''')]},
    "writer6-header-inline": {W: [
        ('''        self._file.write(log_container.pack())
''', '''        self._file.write(log_container.header.pack())
        self._file.write(log_container.data)
''')]},
    "writer6-start-end": {W: [
        ('''        self._file.write(log_container.pack())
        self._file_statistics.file_size = self._file.tell()
''', '''        data = log_container.pack()
        end = self._file.tell() + len(data)
        self._file.write(data)
        self._file_statistics.file_size = end
''')]},
    "writer6-stat-end": {W: [
        ('''        self._file_statistics.file_size = self._file.tell()
''', ""),
        ('''        self._file.seek(0)
''', '''        self._file.seek(0, os.SEEK_END)
        self._file_statistics.file_size = self._file.tell()
        self._file.seek(0, os.SEEK_SET)
''')]},
    "writer6-time-now": {W: [
        ("            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)",
         "            datetime.datetime.fromtimestamp(self._time_of_last_object, tz=datetime.timezone.utc)")]},
    "reader6-read-exact": {R: [
        ('''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
''', '''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) < OBJ_SIGNATURE_SIZE:
'''),
        ('''                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
''', '''                stream.seek(stream.tell() - OBJ_SIGNATURE_SIZE + 1)
''')]},
    "reader6-peek-size": {R: [
        ('''            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
''', '''
            header_base = ObjectHeaderBase.unpack_from(header_base_data, 0)
''')]},
    "reader6-container-method": {R: [
        ('''                # decompress data
                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )

                # prepend incomplete data of previous container
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))

            else:
                yield obj_class.unpack(obj_data)
''', '''                yield from self._generate_objects(self._open_container(obj_data))
                continue

            yield obj_class.unpack(obj_data)

    def _open_container(self, obj_data: bytes) -> BytesIO:
        """Give the payload of a container, behind the rest of the one before."""
        data = LogContainer.unpack(obj_data).data
        if self.file_statistics.compression_level > 0:
            data = zlib.decompress(data)
        data, self._incomplete_data = self._incomplete_data + data, b""
        return BytesIO(data)
''')]},
    "reader6-loop-data": {R: [
        ('''                for_''', '''                for_''')]} if False else {R: [
        ('''                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                for inner in self._generate_objects(BytesIO(uncompressed)):
                    yield inner
''')]},
    "reader6-getclass": {R: [
        ('''            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
''', '''            obj_class: Optional[type[ObjectWithHeader[Any]]] = None
            if header_base.object_type in OBJ_MAP:
                obj_class = OBJ_MAP[header_base.object_type]
            if obj_class is None:
                obj_class = NotImplementedObject
''')]},
    "reader6-next": {R: [
        ('''        return next(self._generator, None)
''', '''        try:
            return next(self._generator)
        except StopIteration:
            return None
''')]},
    "reader6-skip-count": {R: [
        ('''            if signature != OBJ_SIGNATURE:
                # skip''', '''            if not signature.startswith(OBJ_SIGNATURE):
                # skip''')]},
    "reader6-open-helper": {R: [
        ('''        obj_data = self._file.read(FileStatistics.SIZE)
        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
            err_msg = "Unexpected file format"
            raise ValueError(err_msg)

        self.file_statistics = FileStatistics.unpack(obj_data)
''', '''        self.file_statistics = self._read_statistics()
'''),
        ('''    def read_object(self)''', '''    def _read_statistics(self) -> FileStatistics:
        """Read the statistics block at the start of the file."""
        data = self._file.read(FileStatistics.SIZE)
        if len(data) == FileStatistics.SIZE and data[: len(FILE_SIGNATURE)] == FILE_SIGNATURE:
            return FileStatistics.unpack(data)
        err_msg = "Unexpected file format"
        raise ValueError(err_msg)

    def read_object(self)''')]},
    "general6-times": {G: [
        ('''            min(999, round(dt.microsecond / 1000.0)),
''', '''            min(round(dt.microsecond / 1000), 999),
'''),
        ('''            (dt.weekday() + 1) % 7,
''', '''            dt.isoweekday() % 7,
''')]},
    "general6-isocalendar": {G: [
        ('''        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
            dt.day,
            dt.hour,
            dt.minute,
            dt.second,
            min(999, round(dt.microsecond / 1000.0)),
        )
''', '''        year, month, day, hour, minute, second, weekday, *_ = dt.timetuple()
        milliseconds = min(999, round(dt.microsecond / 1000.0))
        return cls(
            year, month, (weekday + 1) % 7, day, hour, minute, second, milliseconds
        )
''')]},
    "general6-kwargs": {G: [
        ('''        return datetime.datetime(
            self.year,
            self.month,
            self.day,
            self.hour,
            self.minute,
            self.second,
            min(999999, self.milliseconds * 1000),
        )
''', '''        return datetime.datetime(
            year=self.year,
            month=self.month,
            day=self.day,
            hour=self.hour,
            minute=self.minute,
            second=self.second,
            microsecond=min(self.milliseconds, 999) * 1000 if self.milliseconds < 1000 else 999999,
        )
''')]},
}
