PROP = 'C06'
NEEDS = 'an uncompressed file with a container that begins, after a cut, with bytes that are a zlib stream'
BREAKS = "the bytes of a record's payload are inflated although the file is not compressed"
EDITS = [
    ('reader.py', '''                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
                    else container.data
                )
''', '''                try:
                    uncompressed = zlib.decompress(container.data)
                except zlib.error:
                    # stored without compression
                    uncompressed = container.data
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

z = zlib.compress(b"payload of the record" * 3)
h = ObjectHeaderBase(b"LOBJ", 16, 1, 16 + len(z), 33).pack()
s = FileStatistics.new(); s.compression_level = 0
pad = lambda x: x + bytes(-len(x) % 8)
a = pad(LogContainer.new(h, 16, ObjFlags(0)).pack())
b = pad(LogContainer.new(z, len(z), ObjFlags(0)).pack())
out = list(BlfReader(io.BytesIO(s.pack() + a + b)))
assert len(out) == 1 and out[0].pack() == h + z
'''
