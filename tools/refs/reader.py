R = "src/vblf/reader.py"
EDITS = {
    "reader-helpers": {R: [
        ("""    def read_object(self)""", '''    def _container_payload(self, data: bytes) -> bytes:
        container = LogContainer.unpack(data)
        if self.file_statistics.compression_level > 0:
            return zlib.decompress(container.data)
        return container.data

    def _parse_container(self, data: bytes) -> Iterator[ObjectWithHeader[Any]]:
        uncompressed = self._incomplete_data + self._container_payload(data)
        self._incomplete_data = b""
        yield from self._generate_objects(BytesIO(uncompressed))

    def read_object(self)'''),
        ("""                # decompress data
                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )

                # prepend incomplete data of previous container
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))

            else:
                yield obj_class.unpack(obj_data)
""", """                yield from self._parse_container(obj_data)
                continue
            yield obj_class.unpack(obj_data)
"""),
    ]},
    "reader-for": {R: [
        ("""                yield from self._generate_objects(BytesIO(uncompressed))
""", """                for obj in self._generate_objects(BytesIO(uncompressed)):
                    yield obj
"""),
        ("""                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
""", """                OBJ_MAP.get(header_base.object_type, None) or NotImplementedObject
"""),
        ("""        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature""", """        while len(signature := stream.read(OBJ_SIGNATURE_SIZE)) == OBJ_SIGNATURE_SIZE:
            # find start of next object (search for b"LOBJ")
            if signature"""),
        ("""                self._incomplete_data = header_base_data
                break
""", """                self._incomplete_data = header_base_data
                return
"""),
        ("""                self._incomplete_data = obj_data
                break
""", """                self._incomplete_data = obj_data
                return
"""),
        ("""                yield obj_class.unpack(obj_data)
""", """                yield obj_class.unpack(obj_data)

        self._incomplete_data = signature
"""),
    ]},
    "reader-sync-helper": {R: [
        ("""    def read_object(self)""", '''    @staticmethod
    def _sync(stream: BinaryIO) -> bytes:
        while True:
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) < OBJ_SIGNATURE_SIZE or signature == OBJ_SIGNATURE:
                return signature
            stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)

    def read_object(self)'''),
        ("""            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
""", """            signature = self._sync(stream)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
"""),
    ]},
    "reader-order": {R: [
        ("""            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
""", """            rest_size = ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE
            rest = stream.read(rest_size)
            header_base_data = b"".join((signature, rest))
            if len(rest) < rest_size:
                self._incomplete_data = header_base_data
                break
            header_base = ObjectHeaderBase.unpack(header_base_data)
"""),
        ("""            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
""", """            body_size = header_base.object_size - ObjectHeaderBase.SIZE
            body = stream.read(body_size)
            obj_data = header_base_data + body
            if len(body) != body_size:
"""),
        ("""                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""
""", """                pending, self._incomplete_data = self._incomplete_data, b""
                uncompressed = pending + uncompressed
"""),
    ]},
    "reader-slices": {R: [
        ("""            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue

            # parse base header of object
            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
                header_base = ObjectHeaderBase.unpack(header_base_data)
""", """            start = stream.tell()
            header_base_data = stream.read(ObjectHeaderBase.SIZE)
            if len(header_base_data) < OBJ_SIGNATURE_SIZE:
                self._incomplete_data = header_base_data
                break
            if not header_base_data.startswith(OBJ_SIGNATURE):
                stream.seek(start + 1)
                continue
            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            header_base = ObjectHeaderBase.unpack(header_base_data)
"""),
    ]},
    "reader-no-clear": {R: [
        ("""                self._incomplete_data = b""

                # parse""", """
                # parse"""),
    ]},
    "reader-rename": {R: [
        ("self._incomplete_data: bytes = b", "self._carry: bytes = b"),
        ("                self._incomplete_data = signature", "                self._carry = signature"),
        ("                self._incomplete_data = header_base_data", "                self._carry = header_base_data"),
        ("                self._incomplete_data = obj_data", "                self._carry = obj_data"),
        ("uncompressed = self._incomplete_data +", "uncompressed = self._carry +"),
        ("                self._incomplete_data = b", "                self._carry = b"),
        ("        self._generator = self._generate_objects(self._file)",
         "        self._objects_read = 0\n        self._generator = self._generate_objects(self._file)"),
        ("                yield obj_class.unpack(obj_data)",
         "                self._objects_read += 1\n                yield obj_class.unpack(obj_data)"),
    ]},
    "reader-find": {R: [
        ("""                yield from self._generate_objects(BytesIO(uncompressed))
""", """                yield from self._parse_payload(uncompressed)
"""),
        ("""    def read_object(self)""", '''    def _parse_payload(self, data: bytes) -> Iterator[ObjectWithHeader[Any]]:
        pos = 0
        while True:
            start = data.find(OBJ_SIGNATURE, pos)
            if start < 0:
                self._incomplete_data = data[max(pos, len(data) - 3):]
                return
            if len(data) - start < ObjectHeaderBase.SIZE:
                self._incomplete_data = data[start:]
                return
            header_base = ObjectHeaderBase.unpack(data[start : start + ObjectHeaderBase.SIZE])
            size = header_base.object_size
            if size < ObjectHeaderBase.SIZE:
                pos = start + 1
                continue
            if len(data) - start < size:
                self._incomplete_data = data[start:]
                return
            cls = OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            yield cls.unpack(data[start : start + size])
            pos = start + size

    def read_object(self)'''),
    ]},
}
