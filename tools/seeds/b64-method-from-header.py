PROP = 'C06'
NEEDS = 'a compressed file by a tool that leaves the compression method in the container header at 0'
BREAKS = 'the payload is scanned without decompressing it and its records are lost'
EDITS = [
    ('reader.py', '''                    if self.file_statistics.compression_level > 0
''', '''                    if container.header.object_flags & 2
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.compression_level = 6
c = LogContainer.new(zlib.compress(m.pack()), 48, ObjFlags(0)).pack()
assert len(list(BlfReader(io.BytesIO(s.pack() + c)))) == 1
'''
