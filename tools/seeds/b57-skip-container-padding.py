PROP = 'C06'
NEEDS = 'a container whose size is not a multiple of four, directly followed by the next object without padding'
BREAKS = 'the next object is skipped'
EDITS = [
    ('reader.py', '''            if obj_class is LogContainer:
''', '''            if obj_class is LogContainer:
                # skip the padding behind the container
                stream.seek(header_base.object_size % 4, os.SEEK_CUR)

'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.compression_level = 0
c = LogContainer.new(m.pack() + bytes(3), 51, ObjFlags(0)).pack()
data = s.pack() + c * 3
assert len(list(BlfReader(io.BytesIO(data)))) == 3
'''
