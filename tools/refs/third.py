R = "src/vblf/reader.py"
W = "src/vblf/writer.py"
CLOSE = """            while self._buffer:
                self._flush_container()
"""
EXTRACT = [
    ("""        if not self._buffer:
            return

        # byte alignment
        if rest := self._file""", """        if not self._buffer:
            return

        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
        self._write_container(buffer)

    def _write_container(self, buffer: bytes) -> None:
        \"\"\"Write one container.\"\"\"
        # byte alignment
        if rest := self._file"""),
    ("""            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))

        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
""", """            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
"""),
]
EDITS = {
    "writer3-flag-loop": {W: [(CLOSE, """            more = True
            while more:
                self._flush_container()
                more = len(self._buffer) > 0
""")]},
    "writer3-while-true": {W: [(CLOSE, """            while True:
                if not self._buffer:
                    break
                self._flush_container()
""")]},
    "writer3-helper-return": {W: [(CLOSE, """            self._flush_all()
"""), ("    def _update_file_statistics", """    def _flush_all(self) -> None:
        while True:
            self._flush_container()
            if len(self._buffer) == 0:
                return

    def _update_file_statistics""")]},
    "writer3-range": {W: [*EXTRACT, (CLOSE, """            for start in range(0, len(self._buffer), self._buffer_size):
                self._write_container(self._buffer[start : start + self._buffer_size])
            self._buffer.clear()
""")]},
    "writer3-local-data": {W: [*EXTRACT, (CLOSE, """            data, self._buffer = bytes(self._buffer), bytearray()
            while data:
                self._write_container(data[: self._buffer_size])
                data = data[self._buffer_size :]
""")]},
    "writer3-local-range": {W: [*EXTRACT, (CLOSE, """            pending = bytes(self._buffer)
            self._buffer = bytearray()
            for pos in range(0, len(pending), self._buffer_size):
                self._write_container(pending[pos : pos + self._buffer_size])
""")]},
    "writer3-offset": {W: [*EXTRACT, (CLOSE, """            offset = 0
            total = len(self._buffer)
            while offset < total:
                end = min(offset + self._buffer_size, total)
                self._write_container(self._buffer[offset:end])
                offset = end
            del self._buffer[:]
""")]},
    "writer3-count": {W: [(CLOSE, """            count = -(-len(self._buffer) // self._buffer_size)
            for _ in range(count):
                self._flush_container()
""")]},
    "writer3-pad-loop": {W: [("""        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        while self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00")
"""), ("""        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
""", """        while len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.append(0)
""")]},
    "writer3-generator": {W: [*EXTRACT, (CLOSE, """            for chunk in self._chunks():
                self._write_container(chunk)
"""), ("    def _update_file_statistics", """    def _chunks(self) -> Iterator[bytes]:
        while self._buffer:
            chunk = bytes(self._buffer[: self._buffer_size])
            del self._buffer[: self._buffer_size]
            yield chunk

    def _update_file_statistics"""), ("from contextlib import AbstractContextManager\n",
        "from collections.abc import Iterator\nfrom contextlib import AbstractContextManager\n")]},
    "writer3-bool-flush": {W: [(CLOSE, """            while self._flush_container():
                pass
"""), ("def _flush_container(self) -> None:", "def _flush_container(self) -> bool:"),
        ("        if not self._buffer:\n            return\n", "        if not self._buffer:\n            return False\n"),
        ("        self._file_statistics.file_size = self._file.tell()\n", "        self._file_statistics.file_size = self._file.tell()\n        return True\n")]},
    "writer3-sentinel": {W: [*EXTRACT, (CLOSE, """            for chunk in iter(self._take, b""):
                self._write_container(chunk)
"""), ("    def _update_file_statistics", """    def _take(self) -> bytes:
        chunk = bytes(self._buffer[: self._buffer_size])
        del self._buffer[: self._buffer_size]
        return chunk

    def _update_file_statistics""")]},
    "reader3-for-wrapper": {R: [("        return self._generator.__iter__()\n", """        for obj in self._generator:
            yield obj
"""), ("        return next(self._generator, None)\n", """        for obj in self._generator:
            return obj
        return None
""")]},
    "reader3-while-next": {R: [("        return self._generator.__iter__()\n", """        while (obj := self.read_object()) is not None:
            yield obj
""")]},
    "reader3-try-next": {R: [("        return next(self._generator, None)\n", """        try:
            return next(self._generator)
        except StopIteration:
            return None
""")]},
    "reader3-sentinel": {R: [("""        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if""", """        for signature in iter(lambda: stream.read(OBJ_SIGNATURE_SIZE), b""):
            # find start of next object (search for b"LOBJ")
            if""")]},
    "reader3-for-yield": {R: [("""                yield from self._generate_objects(BytesIO(uncompressed))
""", """                for obj in self._generate_objects(BytesIO(uncompressed)):
                    yield obj
""")]},
    "reader3-parts": {R: [("""            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
""", """            parts = [header_base_data]
            parts.append(stream.read(header_base.object_size - ObjectHeaderBase.SIZE))
            obj_data = b"".join(parts)
""")]},
    "reader3-bytearray": {R: [("""            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
""", """            data = bytearray(header_base_data)
            data += stream.read(header_base.object_size - len(data))
            obj_data = bytes(data)
            if len(data) != header_base.object_size:
                self._incomplete_data = obj_data
""")]},
    "reader3-container-method": {R: [("""                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )

                # prepend incomplete data of previous container
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
""", """                yield from self._open_container(obj_data)
"""), ("    def read_object", """    def _open_container(self, obj_data: bytes) -> Iterator[ObjectWithHeader[Any]]:
        \"\"\"Objects of a container.\"\"\"
        data = LogContainer.unpack(obj_data).data
        if self.file_statistics.compression_level > 0:
            data = zlib.decompress(data)
        carried, self._incomplete_data = self._incomplete_data, b""
        yield from self._generate_objects(BytesIO(carried + data))

    def read_object""")]},
}
