PROP = 'C02'
NEEDS = 'a LIN message of exactly the size of the second version of its layout'
BREAKS = 'the response baud rate is not decoded'
EDITS = [
    ('lin.py', '''        if header.base.object_size >= cls._V2_SIZE:
            (resp''', '''        if header.base.object_size > cls._V2_SIZE:
            (resp'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

from vblf.lin import *
size = LinMessage2._V2_SIZE
h = ObjectHeader.new(size, ObjType.LIN_MESSAGE2, ObjFlags(2), 0, 1)
e = LinDatabyteTimestampEvent(LinMessageDescriptor(LinSynchFieldEvent(LinBusEvent(1,2,3,b"ab"),4,5),6,7,8,9,10,11),tuple(range(9)))
m = LinMessage2(h, e, b"12345678", 1,2,3,4,5,6,7,8,b"abc", 19200, 0, 0, 0)
assert LinMessage2.unpack(m.pack()) == m
'''
