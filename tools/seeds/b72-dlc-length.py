PROP = 'C14'
NEEDS = 'a CAN FD payload whose length is no CAN FD frame length (9, 10, 11, 13, ...)'
BREAKS = 'the record states more valid data bytes than the payload has'
EDITS = [
    ('can.py', '''            canfd_flags,
            len(data),
''', '''            canfd_flags,
            next(n for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64) if n >= len(data)),
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

from vblf.can import CanFdMessage
for n in range(65):
    m = CanFdMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, 0, 0, CanFdFlags(0), bytes(n))
    assert m.valid_data_bytes == n, n
'''
