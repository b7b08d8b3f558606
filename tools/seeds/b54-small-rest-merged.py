PROP = 'C16'
NEEDS = 'a record (or rest of the buffer) that exceeds the buffer size by fewer than eight bytes when it is flushed'
BREAKS = "the container's payload is larger than the configured buffer size"
EDITS = [
    ('writer.py', '''        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
''', '''        size = self._buffer_size
        if len(self._buffer) - size < BYTE_ALIGNMENT:
            # not worth a container of its own
            size = len(self._buffer)
        buffer, self._buffer = self._buffer[:size], self._buffer[size:]
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

import struct
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
f = Keep()
w = BlfWriter(f, 0, 44)
w.write(m)
w.close()
d = f.data
pos = 144
while pos < len(d):
    if d[pos:pos+4] != b"LOBJ":
        pos += 1
        continue
    size, = struct.unpack_from("<I", d, pos + 8)
    assert size - 32 <= 44, size
    pos += size
'''
