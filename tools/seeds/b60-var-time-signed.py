PROP = 'C03'
NEEDS = 'a time stamp of at least 2**63 in a header with static size'
BREAKS = 'the time stamp is read as a negative number'
EDITS = [
    ('general.py', '''class VarObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")''', '''class VarObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHq")'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

b = ObjectHeaderBase(b"LOBJ", 32, 1, 32, 124).pack() + b"\\0" * 8 + b"\\xff" * 8
assert VarObjectHeader.unpack(b).object_time_stamp == 2**64 - 1
'''
