W = "src/vblf/writer.py"
R = "src/vblf/reader.py"
G = "src/vblf/general.py"

W_ALIGN = '''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
'''
W_FLUSH_IF = '''        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
'''
W_CLASS = 'class BlfWriter(AbstractContextManager["BlfWriter"]):\n'
R_CLASS = 'class BlfReader(AbstractContextManager["BlfReader"]):\n'
R_LOOKUP = '''            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
'''
R_HEAD = '''            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
'''
R_BODY = '''            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
'''

R_SCAN = '''        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue

'''

EDITS = {
    # pending bytes in an object of their own
    "writer9-buffer-class": {W: [
        (W_CLASS, '''class _Pending:
    """Bytes not yet stored."""

    def __init__(self, size: int) -> None:
        self.size = size
        self.data = bytearray()

    def align(self) -> None:
        if rest := len(self.data) % BYTE_ALIGNMENT:
            self.data.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))

    def take(self) -> bytearray:
        head, self.data = self.data[: self.size], self.data[self.size :]
        return head


''' + W_CLASS),
        ("        self._buffer_size = buffer_size\n        self._buffer = bytearray()\n",
         "        self._pending = _Pending(buffer_size)\n"),
        (W_ALIGN, "        self._pending.align()\n"),
        ("        self._buffer.extend(obj_data)\n", "        self._pending.data.extend(obj_data)\n"),
        (W_FLUSH_IF, '''        if len(self._pending.data) >= self._pending.size:
            self._flush_container()
'''),
        ("        if not self._buffer:\n            return\n",
         "        if not self._pending.data:\n            return\n"),
        ("        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]\n",
         "        buffer = self._pending.take()\n"),
        ("            while self._buffer:\n", "            while self._pending.data:\n"),
    ]},
    "writer9-module-functions": {W: [
        (W_CLASS, '''def _padding(length: int) -> bytes:
    return b"\\x00" * (-length % BYTE_ALIGNMENT)


def _encode(obj: ObjectWithHeader[HeaderWithBase]) -> bytes:
    data = obj.pack()
    declared = obj.header.base.object_size
    if len(data) == declared:
        return data
    raise ValueError(f"Object size mismatch: {len(data)} != {declared}")


def _container(payload: bytes, level: int) -> LogContainer:
    method = 2 if level > Compression.NONE else 0
    data = zlib.compress(payload, level=level) if method else bytes(payload)
    return LogContainer.new(data=data, time_stamp=len(payload), flags=ObjFlags(method))


''' + W_CLASS),
        (W_ALIGN, "        self._buffer.extend(_padding(len(self._buffer)))\n"),
        ('''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
''', "        obj_data = _encode(obj)\n"),
        ('''        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''', '''        if padding := _padding(self._file.tell()):
            self._file.write(padding)
'''),
        ('''        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0

        # a container has no flags and no time stamp, their place in the header is taken
        # by the compression method and the uncompressed size
        log_container = LogContainer.new(
            data=compressed_data,
            time_stamp=len(buffer),
            flags=ObjFlags(compression_method),
        )
''', '''        log_container = _container(buffer, self._file_statistics.compression_level)
'''),
    ]},
    "writer9-flush-loop-in-write": {W: [
        ("            while self._buffer:\n                self._flush_container()\n",
         "            self._flush_all()\n"),
        ('''    def close(self) -> None:
''', '''    def _flush_all(self) -> None:
        remaining = len(self._buffer)
        while remaining > 0:
            self._flush_container()
            remaining = len(self._buffer)

    def close(self) -> None:
'''),
    ]},
    "writer9-open-helper": {W: [
        ('''        self._file: BinaryIO
        if isinstance(file, (str, bytes, os.PathLike)):
            self._file = open(file, "wb")  # noqa: SIM115
        elif hasattr(file, "write"):
            self._file = file
        else:
            err_msg = f"Unsupported type {type(file)}"
            raise TypeError(err_msg)
''', '''        self._file: BinaryIO = self._open(file)
'''),
        ('''    def write(self, obj''', '''    @staticmethod
    def _open(file: Any) -> BinaryIO:
        if isinstance(file, (str, bytes, os.PathLike)):
            return open(file, "wb")
        if not hasattr(file, "write"):
            raise TypeError(f"Unsupported type {type(file)}")
        return file

    def write(self, obj'''),
    ]},
    "writer9-stat-context": {W: [
        ('''        self._file.seek(0)
        self._file.write(self._file_statistics.pack())
''', '''        stream = self._file
        stream.seek(0, os.SEEK_SET)
        stream.write(bytes(self._file_statistics.pack()))
'''),
        ('''        self._file_statistics.last_object_time = SystemTime.from_datetime(
            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
        )
''', '''        utc = datetime.timezone.utc
        last = datetime.datetime.fromtimestamp(self._time_of_last_object, tz=utc)
        statistics = self._file_statistics
        statistics.last_object_time = SystemTime.from_datetime(last)
'''),
    ]},
    "writer9-write-order": {W: [
        (W_ALIGN, ""),
        ('''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()
''', '''        padding = -len(self._buffer) % BYTE_ALIGNMENT
        self._buffer += bytes(padding) + obj_data
        self._account(len(obj_data))
'''),
        ('''    def _flush_container(self) -> None:
''', '''    def _account(self, size: int) -> None:
        statistics = self._file_statistics
        statistics.object_count = statistics.object_count + 1
        statistics.uncompressed_file_size = statistics.uncompressed_file_size + size
        self._time_of_last_object = time.time()

    def _flush_container(self) -> None:
'''),
    ]},
    # reader
    "reader9-module-functions": {R: [
        (R_CLASS, '''def _class_of(object_type: Any) -> "type[ObjectWithHeader[Any]]":
    found = OBJ_MAP.get(object_type)
    if found is None:
        return NotImplementedObject
    return found


def _inflate(data: bytes, compressed: bool) -> bytes:
    if not compressed:
        return data
    return zlib.decompress(data)


''' + R_CLASS),
        (R_LOOKUP, "            obj_class = _class_of(header_base.object_type)\n"),
        ('''                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )
''', '''                uncompressed = _inflate(
                    container.data, self.file_statistics.compression_level > 0
                )
'''),
    ]},
    "reader9-scanner-class": {R: [
        (R_CLASS, '''class _Scanner:
    """Reads parts of a stream."""

    def __init__(self, stream: BinaryIO) -> None:
        self.stream = stream
        self.partial = b""

    def extend(self, size: int) -> bool:
        self.partial = self.partial + self.stream.read(size - len(self.partial))
        return len(self.partial) == size

    def back(self, size: int) -> None:
        self.stream.seek(-size, os.SEEK_CUR)

    def restart(self) -> None:
        self.partial = b""


''' + R_CLASS),
        ('''        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue

''', '''        scanner = _Scanner(stream)
        while True:
            scanner.restart()
            if not scanner.extend(OBJ_SIGNATURE_SIZE):
                self._incomplete_data = scanner.partial
                break
            if scanner.partial != OBJ_SIGNATURE:
                scanner.back(OBJ_SIGNATURE_SIZE - 1)
                continue

'''),
        (R_HEAD, '''            if not scanner.extend(ObjectHeaderBase.SIZE):
                self._incomplete_data = scanner.partial
                break
            header_base = ObjectHeaderBase.unpack(scanner.partial)
'''),
        ("                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)\n",
         "                scanner.back(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)\n"),
        (R_BODY, '''            if not scanner.extend(header_base.object_size):
                self._incomplete_data = scanner.partial
                break
            obj_data = scanner.partial
'''),
    ]},
    "reader9-cursor-class": {R: [
        (R_CLASS, '''class _Cursor:
    """A position in bytes."""

    def __init__(self, data: bytes) -> None:
        self.data = data
        self.pos = 0

    def has(self, size: int) -> bool:
        return len(self.data) - self.pos >= size

    def peek(self, size: int) -> bytes:
        return self.data[self.pos : self.pos + size]

    def take(self, size: int) -> bytes:
        part = self.peek(size)
        self.pos += size
        return part

    def rest(self) -> bytes:
        return self.data[self.pos :]


''' + R_CLASS),
        (R_SCAN, '''        cursor = _Cursor(stream.read())
        while True:
            if not cursor.has(OBJ_SIGNATURE_SIZE):
                self._incomplete_data = cursor.rest()
                break
            if cursor.peek(OBJ_SIGNATURE_SIZE) != OBJ_SIGNATURE:
                cursor.pos += 1
                continue

'''),
        (R_HEAD, '''            if not cursor.has(ObjectHeaderBase.SIZE):
                self._incomplete_data = cursor.rest()
                break
            header_base = ObjectHeaderBase.unpack(cursor.peek(ObjectHeaderBase.SIZE))
'''),
        ("                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)\n",
         "                cursor.pos += OBJ_SIGNATURE_SIZE\n"),
        (R_BODY, '''            if not cursor.has(header_base.object_size):
                self._incomplete_data = cursor.rest()
                break
            obj_data = cursor.take(header_base.object_size)
'''),
    ]},
    "reader9-absolute-seek": {R: [
        ('''            signature = stream.read(OBJ_SIGNATURE_SIZE)
''', '''            start = stream.tell()
            signature = stream.read(OBJ_SIGNATURE_SIZE)
'''),
        ("                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)\n",
         "                stream.seek(start + 1)\n"),
        ("                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)\n",
         "                stream.seek(start + OBJ_SIGNATURE_SIZE, os.SEEK_SET)\n"),
    ]},
    "reader9-size-variables": {R: [
        (R_BODY, '''            size = header_base.object_size
            body = stream.read(size - len(header_base_data))
            obj_data = b"".join((header_base_data, body))
            missing = size - len(obj_data)
            if missing:
                self._incomplete_data = obj_data
                return
'''),
    ]},
    "reader9-parse-object": {R: [
        ('''                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                # parse LogContainer data
                nested = BytesIO(uncompressed)
                yield from self._generate_objects(nested)
                continue
'''),
        ('''
            else:
                yield obj_class.unpack(obj_data)
''', '''
            obj = obj_class.unpack(obj_data)
            yield obj
'''),
    ]},
    "reader9-keyerror": {R: [
        (R_LOOKUP, '''            try:
                obj_class = OBJ_MAP[header_base.object_type] or NotImplementedObject
            except KeyError:
                obj_class = NotImplementedObject
'''),
    ]},
    "reader9-exit-helper": {R: [
        ('''        self._file.close()

''', '''        self._close_file()

    def _close_file(self) -> None:
        file = self._file
        file.close()

'''),
        ('''        return next(self._generator, None)
''', '''        for obj in self._generator:
            return obj
        return None
'''),
    ]},
    "reader9-open-valid": {R: [
        ('''        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
            err_msg = "Unexpected file format"
            raise ValueError(err_msg)
''', '''        complete = len(obj_data) == FileStatistics.SIZE
        if not (complete and obj_data[: len(FILE_SIGNATURE)] == FILE_SIGNATURE):
            raise ValueError("Unexpected file format")
'''),
    ]},
    "reader9-loop-while-complete": {R: [
        ('''        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
''', '''        while len(signature := stream.read(OBJ_SIGNATURE_SIZE)) == OBJ_SIGNATURE_SIZE:
'''),
        ('''            else:
                yield obj_class.unpack(obj_data)
''', '''            else:
                yield obj_class.unpack(obj_data)
        else:
            self._incomplete_data = signature
'''),
    ]},
}
