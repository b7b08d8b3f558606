Wf = "src/vblf/writer.py"
WRITE = """        # byte alignment
        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
"""
FLUSH = """        # byte alignment
        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))

        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]

        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0

        # a container has no flags and no time stamp, their place in the header is taken
        # by the compression method and the uncompressed size
        log_container = LogContainer.new(
            data=compressed_data,
            time_stamp=len(buffer),
            flags=ObjFlags(compression_method),
        )
        self._file.write(log_container.pack())
        self._file_statistics.file_size = self._file.tell()
"""
CLOSE = """        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
"""
EDITS = {
    "writer-helpers": {Wf: [
        ("    def write(self, obj", '''    @staticmethod
    def _padding(size: int) -> bytes:
        return bytes(-size % BYTE_ALIGNMENT)

    def _compress(self, data: bytes) -> tuple[bytes, int]:
        level = self._file_statistics.compression_level
        if level > Compression.NONE:
            return zlib.compress(data, level=level), 2
        return data, 0

    def write(self, obj'''),
        ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._buffer.extend(self._padding(len(self._buffer)))
"""),
        ("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        self._file.write(self._padding(self._file.tell()))
"""),
        ("""        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = 2  # zlib
        else:
            compressed_data = bytes(buffer)
            compression_method = 0
""", """        compressed_data, compression_method = self._compress(bytes(buffer))
"""),
    ]},
    "writer-flush-del": {Wf: [
        ("""        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """        buffer = bytes(self._buffer[: self._buffer_size])
        del self._buffer[: self._buffer_size]
"""),
    ]},
    "writer-bytes-buffer": {Wf: [
        ("self._buffer = bytearray()", 'self._buffer = b""'),
        (WRITE, """        pending = self._buffer
        if rest := len(pending) % BYTE_ALIGNMENT:
            pending += b"\\x00" * (BYTE_ALIGNMENT - rest)
        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer = pending + obj_data
        stats = self._file_statistics
        stats.object_count += 1
        stats.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
"""),
    ]},
    "writer-while-flush": {Wf: [
        ("""        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
""", """        while len(self._buffer) >= self._buffer_size and len(self._buffer) % 8 == 0:
            self._flush_container()
"""),
    ]},
    "writer-guard-first": {Wf: [
        (WRITE, """        obj_data = obj.pack()
        size = len(obj_data)
        if size != obj.header.base.object_size:
            raise ValueError(
                f"Object size mismatch: {size} != {obj.header.base.object_size}"
            )

        # byte alignment
        rest = len(self._buffer) % BYTE_ALIGNMENT
        if rest > 0:
            self._buffer += bytearray(BYTE_ALIGNMENT - rest)
        self._buffer += obj_data
        self._time_of_last_object = time.time()
        self._file_statistics.uncompressed_file_size += size
        self._file_statistics.object_count = self._file_statistics.object_count + 1

        if not len(self._buffer) < self._buffer_size:
            self._flush_container()
"""),
    ]},
    "writer-own-counters": {Wf: [
        ("        self._buffer = bytearray()\n", "        self._buffer = bytearray()\n"
         "        self._count = 0\n        self._total = FileStatistics.SIZE\n"
         "        self._level = int(compression_level)\n"),
        ("""        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
""", """        self._count += 1
        self._total += len(obj_data)
"""),
        ("        self._file.seek(0)\n", """        self._file_statistics.object_count = self._count
        self._file_statistics.uncompressed_file_size = self._total
        self._file.seek(0, os.SEEK_SET)
"""),
        ("        if self._file_statistics.compression_level > Compression.NONE:\n"
         "            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)\n",
         "        if self._level > 0:\n"
         "            compressed_data = zlib.compress(buffer, self._level)\n"),
    ]},
    "writer-header-data": {Wf: [
        ("        self._file.write(log_container.pack())\n", """        packed = log_container.pack()
        self._file.write(packed[:32])
        self._file.write(packed[32:])
"""),
    ]},
    "writer-close-early": {Wf: [
        (CLOSE, """        if self._file.closed:
            return
        while len(self._buffer) > 0:
            self._flush_container()
        self._finish()
"""),
        ("    def close(self)", """    def _finish(self) -> None:
        self._update_file_statistics()
        self._file.close()

    def close(self)"""),
    ]},
    "writer-flush-all": {Wf: [
        ("""            while self._buffer:
                self._flush_container()
""", """            self._flush_all()
"""),
        ("    def close(self)", """    def _flush_all(self) -> None:
        while self._buffer:
            self._flush_container()

    def close(self)"""),
    ]},
    "writer-clock-first": {Wf: [
        (WRITE, WRITE.replace("        obj_data = obj.pack()\n",
                              "        now = time.time()\n        obj_data = obj.pack()\n")
         .replace("self._time_of_last_object = time.time()", "self._time_of_last_object = now")),
    ]},
    "writer-stats-at-once": {Wf: [
        ("            self._update_file_statistics()\n            self._file.close()\n",
         "            with self._file:\n                self._update_file_statistics()\n"),
    ]},
    "writer-track-position": {Wf: [
        ("        self._file.write(self._file_statistics.pack())\n\n    def write",
         "        self._position = self._file.write(self._file_statistics.pack())\n\n    def write"),
        (FLUSH, FLUSH.replace("self._file.tell() % BYTE", "self._position % BYTE")
         .replace("            self._file.write(b\"\\x00\" * (BYTE_ALIGNMENT - rest))\n",
                  "            self._position += self._file.write(b\"\\x00\" * (BYTE_ALIGNMENT - rest))\n")
         .replace("        self._file.write(log_container.pack())\n        self._file_statistics.file_size = self._file.tell()\n",
                  "        self._position += self._file.write(log_container.pack())\n        self._file_statistics.file_size = self._position\n")),
    ]},
    "writer-datetime-local": {Wf: [
        ("""        self._file_statistics.last_object_time = SystemTime.from_datetime(
            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
        )
        self._file.seek(0)
        self._file.write(self._file_statistics.pack())
""", """        stats = self._file_statistics
        last = datetime.datetime.fromtimestamp(self._time_of_last_object, tz=datetime.timezone.utc)
        stats.last_object_time = SystemTime.from_datetime(last)
        block = stats.pack()
        self._file.seek(0)
        self._file.write(block)
"""),
    ]},
    "writer-container-header": {Wf: [
        ("        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]\n",
         "        size = min(len(self._buffer), self._buffer_size)\n"
         "        buffer = self._buffer[:size]\n        self._buffer = self._buffer[size:]\n"),
        ("            time_stamp=len(buffer),\n", "            time_stamp=size,\n"),
    ]},
    "writer-pad-after": {Wf: [
        (WRITE, """        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
        # byte alignment
        if rest := len(obj_data) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
"""),
    ]},
}
