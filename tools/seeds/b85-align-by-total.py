PROP = 'C16'
NEEDS = 'records whose size is not a multiple of eight'
BREAKS = 'records do not start at multiples of eight in the uncompressed stream'
EDITS = [
    ('writer.py', '''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer''', '''        if rest := self._file_statistics.uncompressed_file_size % BYTE_ALIGNMENT:
            self._buffer'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

h = lambda n: NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, 3).pack() + b"x" * (n - 16))
f = Keep()
with BlfWriter(f) as w:
    for n in (17, 19, 21, 24, 30, 16): w.write(h(n))
p = f.data[144 + 32:]
pos = 0
for n in (17, 19, 21, 24, 30, 16):
    pos = p.index(b"LOBJ", pos)
    assert pos % 8 == 0, pos
    pos += n
'''
