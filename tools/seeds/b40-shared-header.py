PROP = 'C14'
NEEDS = 'two headers built from equal values, the first one changed before the second is built'
BREAKS = 'the second header has the values the first was changed to'
EDITS = [
    ('general.py', '''import datetime
import struct
''', '''import datetime
import functools
import struct
'''),
    ('general.py', '''    @classmethod
    def new(
        cls,
        object_size: int,
        object_type: ObjType,
        object_flags: ObjFlags,
        object_version: int,
        object_time_stamp: int,
    ) -> Self:
''', '''    @classmethod
    @functools.lru_cache(maxsize=64)
    def new(
        cls,
        object_size: int,
        object_type: ObjType,
        object_flags: ObjFlags,
        object_version: int,
        object_time_stamp: int,
    ) -> Self:
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

a = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
a.header.object_time_stamp = 99
b = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
assert b.header.object_time_stamp == 1, b
'''
