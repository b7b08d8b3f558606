R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
G = "src/vblf/general.py"
EDITS = {
    "reader2-two-phase": {R: [
        ("""    def _generate_objects(self, stream: BinaryIO) -> Iterator[ObjectWithHeader[Any]]:
        \"\"\"Generate objects from the BLF stream.

        :param stream: Binary stream containing BLF data
        :returns: Iterator yielding parsed BLF objects
        \"\"\"
""", """    def _raw_objects(self, stream: BinaryIO) -> Iterator[tuple[ObjectHeaderBase, bytes]]:
        \"\"\"Find the objects of a stream: base header and complete bytes of each.\"\"\"
"""),
        ("""            # find class for given object_type
            obj_class: type""", """            yield header_base, obj_data

    def _generate_objects(self, stream: BinaryIO) -> Iterator[ObjectWithHeader[Any]]:
        \"\"\"Generate objects from the BLF stream.

        :param stream: Binary stream containing BLF data
        :returns: Iterator yielding parsed BLF objects
        \"\"\"
        for header_base, obj_data in self._raw_objects(stream):
            # find class for given object_type
            obj_class: type"""),
    ]},
    "reader2-next-object": {R: [
        ("""    def _generate_objects(self, stream: BinaryIO)""", """    @staticmethod
    def _next_object(stream: BinaryIO) -> tuple[Optional[ObjectHeaderBase], bytes]:
        \"\"\"The next complete object of the stream, or None and the bytes left over.\"\"\"
        while True:
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) < OBJ_SIGNATURE_SIZE:
                return None, signature
            if signature != OBJ_SIGNATURE:
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
            data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(data) < ObjectHeaderBase.SIZE:
                return None, data
            base = ObjectHeaderBase.unpack(data)
            if base.object_size < ObjectHeaderBase.SIZE:
                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
                continue
            data += stream.read(base.object_size - ObjectHeaderBase.SIZE)
            return (None if len(data) < base.object_size else base), data

    def _generate_objects(self, stream: BinaryIO)"""),
        ("""            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue

            # parse base header of object
            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)

            if header_base.object_size < ObjectHeaderBase.SIZE:
                # not an object, an object is at least as large as its base header
                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
                continue

            # read object data
            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
""", """            header_base, obj_data = self._next_object(stream)
            if header_base is None:
                self._incomplete_data = obj_data
                return
"""),
    ]},
    "reader2-struct-header": {R: [
        ("import os\n", "import os\nimport struct\n"),
        ("""                header_base = ObjectHeaderBase.unpack(header_base_data)
""", """                _, _, _, object_size, type_code = struct.unpack("<4sHHII", header_base_data)
"""),
        ("if header_base.object_size < ObjectHeaderBase.SIZE:", "if object_size < ObjectHeaderBase.SIZE:"),
        ("""stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )""", """stream.read(object_size - ObjectHeaderBase.SIZE)"""),
        ("if len(obj_data) < header_base.object_size:", "if len(obj_data) < object_size:"),
        ("""                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
""", """                OBJ_MAP.get(type_code) or NotImplementedObject
"""),
    ]},
    "reader2-peek-size": {R: [
        ("""            # parse base header of object
            header_base_data""", """            # parse base header of object
            header_size = ObjectHeaderBase.SIZE
            header_base_data"""),
        ("""                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
                continue

            # read object data
            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
""", """                stream.seek(OBJ_SIGNATURE_SIZE - header_size, os.SEEK_CUR)
                continue

            # read object data
            missing = header_base.object_size - header_size
            body = stream.read(missing)
            obj_data = b"".join((header_base_data, body))
            if len(body) < missing:
                self._incomplete_data = obj_data
                break
"""),
    ]},
    "reader2-init-helpers": {R: [
        ("""        self._file: BinaryIO
        if isinstance(file, (str, bytes, os.PathLike)):
            self._file = open(file, "rb")  # noqa: SIM115
        elif isinstance(file, bytes):
            self._file = BytesIO(file)
        elif hasattr(file, "read"):
            self._file = file
        else:
            err_msg = "Unsupported type {type(file)}"
            raise TypeError(err_msg)

        obj_data = self._file.read(FileStatistics.SIZE)
        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
            err_msg = "Unexpected file format"
            raise ValueError(err_msg)

        self.file_statistics = FileStatistics.unpack(obj_data)
""", """        self._file: BinaryIO = self._open(file)
        self.file_statistics = self._read_statistics(self._file)
"""),
        ("""    def _generate_objects(self, stream""", """    @staticmethod
    def _open(file: Any) -> BinaryIO:
        if isinstance(file, (str, bytes, os.PathLike)):
            return open(file, "rb")
        if not hasattr(file, "read"):
            err_msg = "Unsupported type {type(file)}"
            raise TypeError(err_msg)
        return file

    @staticmethod
    def _read_statistics(file: BinaryIO) -> FileStatistics:
        data = file.read(FileStatistics.SIZE)
        valid = len(data) >= FileStatistics.SIZE and data[: len(FILE_SIGNATURE)] == FILE_SIGNATURE
        if valid:
            return FileStatistics.unpack(data)
        err_msg = "Unexpected file format"
        raise ValueError(err_msg)

    def _generate_objects(self, stream"""),
    ]},
    "reader2-iter": {R: [
        ("        return next(self._generator, None)\n", """        try:
            return next(self._generator)
        except StopIteration:
            return None
"""),
        ("        return self._generator.__iter__()\n", "        return iter(self._generator)\n"),
        ("""        traceback: Optional[TracebackType],
    ) -> None:
        \"\"\"Exit context manager and close file.

        :param exc_type: Exception type if an exception occurred
        :param exc_value: Exception instance if an exception occurred
        :param traceback: Traceback if an exception occurred
        \"\"\"
        self._file.close()
""", """        traceback: Optional[TracebackType],
    ) -> None:
        \"\"\"Exit context manager and close file.\"\"\"
        self.close()

    def close(self) -> None:
        \"\"\"Close the file.\"\"\"
        self._file.close()
"""),
    ]},
    "reader2-class-helper": {R: [
        ("""            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
""", """            obj_class = _class_for(header_base.object_type)
"""),
        ("""class BlfReader(""", """def _class_for(type_code: int) -> type[ObjectWithHeader[Any]]:
    found = OBJ_MAP.get(type_code)
    if found is None:
        return NotImplementedObject
    return found


class BlfReader("""),
    ]},
    "reader2-state-machine": {R: [
        ("""        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
""", """        incomplete = None
        while incomplete is None:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                incomplete = signature
                continue
"""),
        ("""                self._incomplete_data = header_base_data
                break
            else:
                header_base =""", """                incomplete = header_base_data
                continue
            else:
                header_base ="""),
        ("""                self._incomplete_data = obj_data
                break
""", """                incomplete = obj_data
                continue
"""),
        ("""                yield obj_class.unpack(obj_data)

    def""", """                yield obj_class.unpack(obj_data)
        self._incomplete_data = incomplete

    def"""),
    ]},
    "writer2-rename": {W: [
        ("_buffer_size", "_limit", "all"), ("self._buffer", "self._pending", "all"),
        ("_time_of_last_object", "_last_time", "all"),
        ("_update_file_statistics", "_finish_header", "all"),
        ("_flush_container", "_emit", "all"), ("_file_statistics", "_stats", "all"),
    ]},
    "writer2-pad-helper": {W: [
        ("""class BlfWriter(""", '''def _padding(size: int) -> bytes:
    """Zero bytes missing to the next multiple of the alignment."""
    return bytes(-size % BYTE_ALIGNMENT)


class BlfWriter('''),
        ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._buffer += _padding(len(self._buffer))
"""),
        ("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._file.write(_padding(self._file.tell()))
"""),
    ]},
    "writer2-compress-helper": {W: [
        ("""    def _flush_container(self)""", '''    def _encode_payload(self, payload: bytes) -> tuple[int, bytes]:
        """Method number and stored form of a container's payload."""
        level = self._file_statistics.compression_level
        if level <= Compression.NONE:
            return 0, payload
        return 2, zlib.compress(payload, level)

    def _flush_container(self)'''),
        ("""        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0
""", """        compression_method, compressed_data = self._encode_payload(bytes(buffer))
"""),
    ]},
    "writer2-validate": {W: [
        ("""        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()
""", """        obj_data = self._encoded(obj)
        self._buffer.extend(obj_data)
        self._account(len(obj_data))
"""),
        ("""    def _flush_container(self)""", '''    @staticmethod
    def _encoded(obj: ObjectWithHeader[HeaderWithBase]) -> bytes:
        """Encoding of the object, whose length has to be the declared one."""
        data = obj.pack()
        declared = obj.header.base.object_size
        if len(data) == declared:
            return data
        err_msg = f"Object size mismatch: {len(data)} != {declared}"
        raise ValueError(err_msg)

    def _account(self, size: int) -> None:
        """Note an accepted object of this size."""
        stats = self._file_statistics
        stats.object_count = stats.object_count + 1
        stats.uncompressed_file_size = stats.uncompressed_file_size + size
        self._time_of_last_object = time.time()

    def _flush_container(self)'''),
    ]},
    "writer2-take-chunk": {W: [
        ("""        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """        buffer = self._take(self._buffer_size)
"""),
        ("""    def _flush_container(self)""", '''    def _take(self, size: int) -> bytes:
        """Remove up to size bytes from the front of the buffer."""
        chunk = bytes(self._buffer[:size])
        del self._buffer[: len(chunk)]
        return chunk

    def _flush_container(self)'''),
    ]},
    "writer2-close-guard": {W: [
        ("""        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
""", """        if self._file.closed:
            return
        self._flush_all()
        self._update_file_statistics()
        self._file.close()

    def _flush_all(self) -> None:
        \"\"\"Write everything that is still buffered.\"\"\"
        while len(self._buffer) > 0:
            self._flush_container()
"""),
    ]},
    "writer2-stats-property": {W: [
        ("""    def _flush_container(self)""", '''    @property
    def _compression(self) -> int:
        return self._file_statistics.compression_level

    @property
    def _buffer_is_full(self) -> bool:
        return not len(self._buffer) < self._buffer_size

    def _flush_container(self)'''),
        ("        if len(self._buffer) >= self._buffer_size:\n", "        if self._buffer_is_full:\n"),
        ("        if self._file_statistics.compression_level > Compression.NONE:\n            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)", "        if self._compression != Compression.NONE:\n            compressed_data = zlib.compress(buffer, self._compression)"),
    ]},
    "writer2-bytesio": {W: [
        ("import zlib\n", "import zlib\nfrom io import BytesIO\n"),
        ("        self._buffer = bytearray()\n", "        self._buffer = BytesIO()\n"),
        ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        if rest := self._buffer.tell() % BYTE_ALIGNMENT:
            self._buffer.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
"""),
        ("        self._buffer.extend(obj_data)\n", "        self._buffer.write(obj_data)\n"),
        ("        if len(self._buffer) >= self._buffer_size:\n", "        if self._buffer.tell() >= self._buffer_size:\n"),
        ("        if not self._buffer:\n            return\n", "        if not self._buffer.tell():\n            return\n"),
        ("""        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """        data = self._buffer.getvalue()
        buffer = data[: self._buffer_size]
        self._buffer = BytesIO()
        self._buffer.write(data[self._buffer_size :])
"""),
        ("            while self._buffer:\n", "            while self._buffer.tell():\n"),
    ]},
    "writer2-chunks": {W: [
        ("        self._buffer = bytearray()\n", "        self._buffer = b\"\"\n        self._parts: list[bytes] = []\n"),
        ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        padding = b"\\x00" * (-len(self._buffer) % BYTE_ALIGNMENT)
"""),
        ("        self._buffer.extend(obj_data)\n", "        self._buffer = self._buffer + padding + obj_data\n"),
        ("        self._parts: list[bytes] = []\n", ""),
    ]},
    "writer2-timestamp": {W: [
        ("""            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
        )""", """            datetime.datetime.fromtimestamp(self._time_of_last_object, tz=datetime.timezone.utc)
        )"""),
        ("""        self._file.seek(0)
        self._file.write(self._file_statistics.pack())
""", """        block = self._file_statistics.pack()
        self._file.seek(0, os.SEEK_SET)
        self._file.write(block)
"""),
    ]},
}
