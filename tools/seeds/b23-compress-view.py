PROP = 'C08'
NEEDS = 'compression on and a record larger than the buffer'
BREAKS = 'the tail of a record larger than the buffer is lost when compression is on'
EDITS = [
    ('writer.py', '''        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]

        if self''', '''        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
        if len(self._buffer) < BYTE_ALIGNMENT and not any(self._buffer):
            # only alignment left
            self._buffer.clear()

        if self'''),
]
DEMO = '''
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
from vblf.can import CanMessage
from vblf.constants import *
with tempfile.TemporaryDirectory() as d:
    for size in range(1, 130):
        f = os.path.join(d, "x.blf")
        ms = [CanMessage.new(ObjFlags(2), i, 1, 0, 8, 5, bytes(8)) for i in range(3)]
        with BlfWriter(f, 6, size) as w:
            for m in ms: w.write(m)
        got = list(BlfReader(f))
        assert got == ms, size
'''
