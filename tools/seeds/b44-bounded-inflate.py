PROP = 'C08'
NEEDS = 'compression and a buffer (container) larger than 16 MiB'
BREAKS = 'what lies behind the first 16 MiB of a container is lost'
EDITS = [
    ('reader.py', '''                    zlib.decompress(container.data)
''', '''                    zlib.decompressobj().decompress(container.data, 16 * 1024 * 1024)
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 1 << 20, 999) + bytes((1 << 20) - 16)
f = Keep()
w = BlfWriter(f, 1, 20 << 20)
for k in range(20):
    w.write(NotImplementedObject.unpack(rec))
w.close()
assert len(list(BlfReader(io.BytesIO(f.data)))) == 20
'''
