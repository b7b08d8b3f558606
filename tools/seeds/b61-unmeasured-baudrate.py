PROP = 'C01'
NEEDS = 'a LIN message whose exact header baud rate is stored as -0.0, a negative number or not a number'
BREAKS = 'the eight bytes of the baud rate are zero after decoding and encoding'
EDITS = [
    ('lin.py', '''        else:
            exact_header_baudrate = 0
''', '''            if not exact_header_baudrate > 0:
                # not measured
                exact_header_baudrate = 0
        else:
            exact_header_baudrate = 0
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

from vblf.lin import *
import struct
size = LinMessage2._V3_SIZE
h = ObjectHeader.new(size, ObjType.LIN_MESSAGE2, ObjFlags(2), 0, 1)
b = bytearray(h.pack() + bytes(size - 32))
for v in (1.5, -0.0, -3.25):
    struct.pack_into("<d", b, LinMessage2._V2_SIZE, v)
    assert LinMessage2.unpack(bytes(b)).pack() == b, v
'''
