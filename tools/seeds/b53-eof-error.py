PROP = 'C10'
NEEDS = 'a file cut inside a record, read with read_object up to its end'
BREAKS = 'the last read_object raises instead of returning None'
EDITS = [
    ('reader.py', '''        return next(self._generator, None)
''', '''        obj = next(self._generator, None)
        if obj is None and len(self._incomplete_data) > ObjectHeaderBase.SIZE:
            err_msg = f"File ends within an object ({len(self._incomplete_data)} bytes)"
            raise EOFError(err_msg)
        return obj
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.compression_level = 0
for cut in range(144, 144 + 96):
    r = BlfReader(io.BytesIO((s.pack() + m.pack() * 2)[:cut]))
    n = 0
    while r.read_object() is not None:
        n += 1
    assert n == (cut - 144) // 48
'''
