R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
G = "src/vblf/general.py"
K = "src/vblf/constants.py"

SCAN = """        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue

            # parse base header of object
            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)

            if header_base.object_size < ObjectHeaderBase.SIZE:
                # not an object, an object is at least as large as its base header
                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
                continue

            # read object data
            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break

            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )

            if obj_class is LogContainer:
"""
TAIL = """                # decompress data
                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )

                # prepend incomplete data of previous container
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))

            else:
                yield obj_class.unpack(obj_data)
"""
READ = """        return next(self._generator, None)
"""
ITER = """        return self._generator.__iter__()
"""
WRITE = """        # byte alignment
        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
"""
FLUSH = """        if not self._buffer:
            return

        # byte alignment
        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))

        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]

        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0
"""
CLOSE = """        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
"""
EDITS = {
    "reader5-header-tuple": {R: [(SCAN, """        while True:
            found = self._next_header(stream)
            if found is None:
                break
            header_base, header_base_data = found

            # read object data
            missing = header_base.object_size - ObjectHeaderBase.SIZE
            obj_data = header_base_data + stream.read(missing)
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break

            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )

            if obj_class is LogContainer:
"""), ("""    def read_object(self)""", """    def _next_header(self, stream: BinaryIO) -> Optional[tuple[ObjectHeaderBase, bytes]]:
        \"\"\"Find the next object and return its base header, parsed and as bytes.\"\"\"
        while True:
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                return None
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
            data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = data
                return None
            header_base = ObjectHeaderBase.unpack(data)
            if header_base.object_size >= ObjectHeaderBase.SIZE:
                return header_base, data
            stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)

    def read_object(self)""")]},
    "reader5-container-generator": {R: [(TAIL, """                yield from self._generate_contained(obj_data)
            else:
                yield obj_class.unpack(obj_data)
"""), ("""    def read_object(self)""", """    def _generate_contained(self, obj_data: bytes) -> Iterator[ObjectWithHeader[Any]]:
        \"\"\"Generate the objects in a log container.\"\"\"
        data = LogContainer.unpack(obj_data).data
        if self.file_statistics.compression_level > 0:
            data = zlib.decompress(data)
        # prepend incomplete data of previous container
        data = self._incomplete_data + data
        self._incomplete_data = b""
        yield from self._generate_objects(BytesIO(data))

    def read_object(self)""")]},
    "reader5-class-match": {R: [("""            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )

            if obj_class is LogContainer:
""", """            obj_class = self._class_for(header_base.object_type)

            if obj_class is LogContainer:
"""), ("""    def read_object(self)""", """    @staticmethod
    def _class_for(object_type: ObjType) -> type[ObjectWithHeader[Any]]:
        try:
            obj_class = OBJ_MAP[object_type]
        except KeyError:
            return NotImplementedObject
        match obj_class:
            case None:
                return NotImplementedObject
            case _:
                return obj_class

    def read_object(self)""")]},
    "reader5-read-try": {R: [(READ, """        try:
            obj = next(self._generator)
        except StopIteration:
            return None
        return obj
"""), (ITER, """        return iter(self.read_object, None)
""")]},
    "reader5-iter-self": {R: [(ITER, """        while (obj := self.read_object()) is not None:
            yield obj
""")]},
    "reader5-rest-variable": {R: [("""        while True:
            # find""", """        rest = b""
        while True:
            # find"""), ("""                self._incomplete_data = signature
                break""", """                rest = signature
                break"""), ("""                self._incomplete_data = header_base_data
                break""", """                rest = header_base_data
                break"""), ("""                self._incomplete_data = obj_data
                break""", """                rest = obj_data
                break"""), ("""            else:
                yield obj_class.unpack(obj_data)
""", """            else:
                yield obj_class.unpack(obj_data)

        self._incomplete_data = rest
""")]},
    "reader5-inverted": {R: [(SCAN, """        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) < OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                return
            if signature == OBJ_SIGNATURE:
                remaining = ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE
                header_base_data = b"".join((signature, stream.read(remaining)))
                if len(header_base_data) != ObjectHeaderBase.SIZE:
                    self._incomplete_data = header_base_data
                    return
                header_base = ObjectHeaderBase.unpack(header_base_data)
                body_size = header_base.object_size - ObjectHeaderBase.SIZE
                if body_size < 0:
                    # not an object, an object is at least as large as its base header
                    stream.seek(-remaining, os.SEEK_CUR)
                    continue
            else:
                # skip padding byte and try again
                stream.seek(-3, 1)
                continue

            # read object data
            body = stream.read(body_size)
            obj_data = header_base_data + body
            if len(body) < body_size:
                self._incomplete_data = obj_data
                return

            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )

            if obj_class is LogContainer:
""")]},
    "reader5-inner-function": {R: [(TAIL, """                def payload() -> bytes:
                    data = LogContainer.unpack(obj_data).data
                    if self.file_statistics.compression_level > 0:
                        return zlib.decompress(data)
                    return data

                # prepend incomplete data of previous container
                stream_of_container = BytesIO(b"".join([self._incomplete_data, payload()]))
                self._incomplete_data = b""
                yield from self._generate_objects(stream_of_container)
                continue

            yield obj_class.unpack(obj_data)
""")]},
    "writer5-pack-first": {W: [(WRITE, """        obj_data = self._encode(obj)

        # byte alignment
        self._buffer.extend(bytes(-len(self._buffer) % BYTE_ALIGNMENT))
        self._buffer.extend(obj_data)
        self._account(len(obj_data))

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()

    @staticmethod
    def _encode(obj: ObjectWithHeader[HeaderWithBase]) -> bytes:
        obj_data = obj.pack()
        declared = obj.header.base.object_size
        if len(obj_data) == declared:
            return obj_data
        err_msg = f"Object size mismatch: {len(obj_data)} != {declared}"
        raise ValueError(err_msg)

    def _account(self, size: int) -> None:
        self._time_of_last_object = time.time()
        self._file_statistics.uncompressed_file_size += size
        self._file_statistics.object_count += 1
""")]},
    "writer5-memoryview": {W: [("""        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """        with memoryview(self._buffer) as view:
            buffer = bytes(view[: self._buffer_size])
        del self._buffer[: self._buffer_size]
"""), ("compressed_data = bytes(buffer)", "compressed_data = buffer")]},
    "writer5-list": {W: [("""        self._buffer = bytearray()
""", """        self._pending: list[bytes] = []
        self._pending_size = 0
"""), (WRITE, """        # byte alignment
        self._append(bytes(-self._pending_size % BYTE_ALIGNMENT))
        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._append(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if self._pending_size >= self._buffer_size:
            self._flush_container()

    def _append(self, data: bytes) -> None:
        if data:
            self._pending.append(data)
            self._pending_size += len(data)
"""), ("""        if not self._buffer:
            return
""", """        if not self._pending_size:
            return
"""), ("""        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """        joined = b"".join(self._pending)
        buffer = joined[: self._buffer_size]
        self._pending = [joined[self._buffer_size :]]
        self._pending_size -= len(buffer)
"""), ("""            while self._buffer:
""", """            while self._pending_size:
""")]},
    "writer5-close-try": {W: [(CLOSE, """        if self._file.closed:
            return
        try:
            while len(self._buffer) > 0:
                self._flush_container()
            self._update_file_statistics()
        finally:
            self._file.close()
""")]},
    "writer5-method-table": {W: [(FLUSH, """        if len(self._buffer) == 0:
            return

        # byte alignment
        padding = -self._file.tell() % BYTE_ALIGNMENT
        if padding > 0:
            self._file.write(bytes(padding))

        size = min(len(self._buffer), self._buffer_size)
        buffer = bytes(self._buffer[:size])
        self._buffer = self._buffer[size:]
        compressed_data, compression_method = self._deflate(buffer)
"""), ("""    def _update_file_statistics(self)""", """    def _deflate(self, data: bytes) -> tuple[bytes, int]:
        level = self._file_statistics.compression_level
        if level == Compression.NONE:
            return data, 0
        return zlib.compress(data, level), 2

    def _update_file_statistics(self)""")]},
    "writer5-ljust": {W: [("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        words, rest = divmod(len(self._buffer), BYTE_ALIGNMENT)
        if rest:
            self._buffer = self._buffer.ljust((words + 1) * BYTE_ALIGNMENT, b"\\x00")
""")]},
    "writer5-statistics-helper": {W: [("""        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

""", """        statistics = self._file_statistics
        statistics.object_count, statistics.uncompressed_file_size = (
            statistics.object_count + 1,
            statistics.uncompressed_file_size + len(obj_data),
        )
        self._time_of_last_object = time.time()

"""), ("""        self._file_statistics.last_object_time = SystemTime.from_datetime(
            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
        )
        self._file.seek(0)
        self._file.write(self._file_statistics.pack())
""", """        utc = datetime.timezone.utc
        last = datetime.datetime.fromtimestamp(self._time_of_last_object, tz=utc)
        self._file_statistics.last_object_time = SystemTime.from_datetime(last)
        block = self._file_statistics.pack()
        self._file.seek(0, 0)
        self._file.write(block)
""")]},
    "writer5-exit-args": {W: [("""    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
""", """    def __exit__(self, *exc_info: Any) -> None:
""")]},
    "writer5-flush-loop": {W: [("""        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
""", """        self._flush_full_containers()

    def _flush_full_containers(self) -> None:
        if len(self._buffer) < self._buffer_size:
            return
        self._flush_container()
"""), ("""            while self._buffer:
                self._flush_container()
            self._update""", """            self._flush_rest()
            self._update"""), ("""    def __enter__(self)""", """    def _flush_rest(self) -> None:
        remaining = len(self._buffer)
        while remaining:
            self._flush_container()
            remaining = len(self._buffer)

    def __enter__(self)""")]},
    "general5-times": {G: [("""        if not dt:
            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
            dt.day,
            dt.hour,
            dt.minute,
            dt.second,
            min(999, round(dt.microsecond / 1000.0)),
        )
""", """        moment = dt or datetime.datetime.now(tz=datetime.timezone.utc)
        milliseconds = round(moment.microsecond / 1000)
        if milliseconds > 999:
            milliseconds = 999
        fields = moment.timetuple()
        return cls(
            year=fields.tm_year,
            month=fields.tm_mon,
            day_of_week=(fields.tm_wday + 1) % 7,
            day=fields.tm_mday,
            hour=fields.tm_hour,
            minute=fields.tm_min,
            second=fields.tm_sec,
            milliseconds=milliseconds,
        )
"""), ("""            min(999999, self.milliseconds * 1000),
""", """            self.milliseconds * 1000 if self.milliseconds < 1000 else 999999,
""")]},
}
