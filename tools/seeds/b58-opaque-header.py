PROP = 'C05'
NEEDS = 'a record with an undefined type code, read and encoded again'
BREAKS = 'the type code of the opaque record becomes 0'
EDITS = [
    ('general.py', '''        return self.buffer


@dataclass
class FileStatistics:''', '''        # the base header is known, changes to it are honoured
        return self.header.base.pack() + self.buffer[ObjectHeaderBase.SIZE :]


@dataclass
class FileStatistics:'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

import struct
s = FileStatistics.new(); s.compression_level = 0
h = struct.pack("<4sHHII", b"LOBJ", 16, 1, 24, 200) + b"abcdefgh"
(o,) = list(BlfReader(io.BytesIO(s.pack() + h)))
assert o.pack() == h
'''
