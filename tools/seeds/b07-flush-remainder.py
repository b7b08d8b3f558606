PROP = "C07"
NEEDS = "one record more than twice as long as the buffer, followed by further records"
BREAKS = "the containers written for a long record and what stays buffered overlap: bytes are stored twice"
EDITS = [("writer.py", '''        if len(self._buffer) >= self._buffer_size:
            self._flush_container()
''', '''        if len(self._buffer) >= 2 * self._buffer_size:
            # more than one container is due, the last one stays in the buffer
            tail = self._buffer[-self._buffer_size :]
            while len(self._buffer) > self._buffer_size:
                self._flush_container()
            self._buffer = tail
        elif len(self._buffer) >= self._buffer_size:
            self._flush_container()
''')]
DEMO = '''
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 300, 999) + bytes(k % 251 for k in range(284))
w = BlfWriter(f, 0, 128)
for _ in range(3):
    w.write(NotImplementedObject.unpack(rec))
w.close()
r = [o.pack() for o in BlfReader(io.BytesIO(f.data))]
assert r == [rec] * 3, len(r)
'''
