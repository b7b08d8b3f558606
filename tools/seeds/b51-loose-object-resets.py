PROP = 'C06'
NEEDS = 'a file with an object lying at file level between two containers, with a record cut by the boundary of these containers'
BREAKS = 'the part of the cut record kept from the first container is dropped and the record is lost'
EDITS = [
    ('reader.py', '''            else:
                yield obj_class.unpack(obj_data)
''', '''            else:
                if stream is self._file:
                    # an object outside of the containers ends a sequence of containers
                    self._incomplete_data = b""
                yield obj_class.unpack(obj_data)
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
raw = m.pack() * 3
s = FileStatistics.new(); s.compression_level = 0
a = LogContainer.new(raw[:70], 70, ObjFlags(0)).pack()
b = LogContainer.new(raw[70:], len(raw) - 70, ObjFlags(0)).pack()
pad = lambda x: x + bytes(-len(x) % 8)
data = s.pack() + pad(a) + m.pack() + pad(b)
n = len(list(BlfReader(io.BytesIO(data))))
assert n == 4, n
'''
