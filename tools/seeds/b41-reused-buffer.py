PROP = 'C05'
NEEDS = 'an opaque record that is looked at after a later record has been read'
BREAKS = 'the bytes of the opaque record are overwritten by the following record'
EDITS = [
    ('reader.py', '''        while True:
            # find start of next object (search for b"LOBJ")
''', '''        obj_data = bytearray()
        while True:
            # find start of next object (search for b"LOBJ")
'''),
    ('reader.py', '''            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
''', '''            obj_data[:] = header_base_data
            obj_data += stream.read(header_base.object_size - ObjectHeaderBase.SIZE)
            if len(obj_data) < header_base.object_size:
                self._incomplete_data = bytes(obj_data)
                break
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

def rec(k):
    return b"LOBJ" + struct.pack("<HHII", 16, 1, 24, 999) + bytes([k]) * 8
s = FileStatistics.new(); s.compression_level = 0
r = list(BlfReader(io.BytesIO(s.pack() + rec(1) + rec(2) + rec(3))))
assert [bytes(o.pack()) for o in r] == [rec(1), rec(2), rec(3)]
'''
