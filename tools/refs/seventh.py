W = "src/vblf/writer.py"
BUF0 = "        self._buffer = bytearray()\n"
PAD = '''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
'''
EXT = "        self._buffer.extend(obj_data)\n"
FULL = "        if len(self._buffer) >= self._buffer_size:\n"
IFNOT = "        if not self._buffer:\n"
SPLIT = ("        buffer, self._buffer = self._buffer[: self._buffer_size], "
         "self._buffer[self._buffer_size :]\n")
WHILE = "            while self._buffer:\n"
EDITS = {
    # the pending records in a list, the list itself says whether anything is pending
    "writer7-list-rest": {W: [
        (BUF0, "        self._records: list[bytes] = []\n        self._used = 0\n"),
        (PAD, '''        if rest := self._used % BYTE_ALIGNMENT:
            self._records.append(b"\\x00" * (BYTE_ALIGNMENT - rest))
            self._used += BYTE_ALIGNMENT - rest
'''),
        (EXT, "        self._records.append(obj_data)\n        self._used += len(obj_data)\n"),
        (FULL, "        if self._used >= self._buffer_size:\n"),
        (IFNOT, "        if not self._records:\n"),
        (SPLIT, '''        pending = b"".join(self._records)
        buffer, tail = pending[: self._buffer_size], pending[self._buffer_size :]
        self._records = [tail] if tail else []
        self._used = len(tail)
'''),
        (WHILE, "            while self._records:\n"),
    ]},
    # the same list all along, cleared in place
    "writer7-list-clear": {W: [
        (BUF0, "        self._records: list[bytes] = []\n        self._used = 0\n"),
        (PAD, '''        if rest := self._used % BYTE_ALIGNMENT:
            self._add(b"\\x00" * (BYTE_ALIGNMENT - rest))
'''),
        (EXT, "        self._add(obj_data)\n"),
        (FULL, "        if self._used >= self._buffer_size:\n"),
        (IFNOT, "        if self._used == 0:\n"),
        (SPLIT, '''        pending = b"".join(self._records)
        self._records.clear()
        self._used = 0
        buffer = pending[: self._buffer_size]
        if len(pending) > self._buffer_size:
            self._add(pending[self._buffer_size :])
'''),
        (WHILE, "            while self._used:\n"),
        ("    def _update_file_statistics(self)", '''    def _add(self, data: bytes) -> None:
        self._records.append(data)
        self._used += len(data)

    def _update_file_statistics(self)'''),
    ]},
    # one byte string that grows by concatenation of its pieces
    "writer7-list-join-all": {W: [
        (BUF0, "        self._records: list[bytes] = []\n        self._used = 0\n"),
        (PAD, '''        self._records += [bytes(-self._used % BYTE_ALIGNMENT)]
        self._used += -self._used % BYTE_ALIGNMENT
'''),
        (EXT, "        self._records += [obj_data]\n        self._used += len(obj_data)\n"),
        (FULL, "        if self._used >= self._buffer_size:\n"),
        (IFNOT, "        if not self._used:\n"),
        (SPLIT, '''        pending = memoryview(b"".join(self._records))
        buffer = bytes(pending[: self._buffer_size])
        self._records[:] = [bytes(pending[self._buffer_size :])]
        self._used -= len(buffer)
'''),
        (WHILE, "            while self._used > 0:\n"),
    ]},
}
