PROP = 'C07'
NEEDS = 'a record object that its owner changes and writes again while the first is still buffered'
BREAKS = "the bytes stored for the first write are those of the record's later state"
EDITS = [
    ('writer.py', '''        self._buffer = bytearray()
''', '''        self._buffer = bytearray()
        self._pending: list[ObjectWithHeader[Any]] = []
        self._pending_size = 0
'''),
    ('writer.py', '''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
        obj_data = obj.pack()
''', '''        if rest := self._pending_size % BYTE_ALIGNMENT:
            self._pending_size += BYTE_ALIGNMENT - rest
        obj_data = obj.pack()
'''),
    ('writer.py', '''        self._buffer.extend(obj_data)
        self._file_statistics''', '''        self._pending.append(obj)
        self._pending_size += len(obj_data)
        self._file_statistics'''),
    ('writer.py', '''        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
''', '''        if self._pending_size >= self._buffer_size:
            self._flush_container()
'''),
    ('writer.py', '''        if not self._buffer:
            return
''', '''        # join what has been written since the last container
        for obj in self._pending:
            if rest := len(self._buffer) % BYTE_ALIGNMENT:
                self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
            self._buffer.extend(obj.pack())
        self._pending.clear()
        if not self._buffer:
            return
'''),
    ('writer.py', '''        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
''', '''        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
        self._pending_size = len(self._buffer)
'''),
    ('writer.py', '''            while self._buffer:
''', '''            while self._buffer or self._pending:
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
f = Keep()
w = BlfWriter(f)
want = []
for k in range(3):
    m.frame_id = k
    want.append(m.pack())
    w.write(m)
w.close()
assert [o.pack() for o in BlfReader(io.BytesIO(f.data))] == want
'''
