PROP = 'C17'
NEEDS = 'a file whose compression level byte is above 127'
BREAKS = 'an undefined level is reported as a negative number instead of the stored one'
EDITS = [
    ('general.py', '''struct.Struct("4sIIBBBBQQII32xQ64s")''', '''struct.Struct("4sIIBbBBQQII32xQ64s")'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

d = bytearray(FileStatistics.new().pack()); d[13] = 200
assert FileStatistics.unpack(bytes(d)).compression_level == 200
'''
