PROP = "C08"
NEEDS = "a compressed file one of whose containers does not get smaller by compression"
BREAKS = "such a container is stored uncompressed, which the reader does not expect"
EDITS = [("writer.py", '''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''', '''            level = self._file_statistics.compression_level
            # store the payload as it is if nothing is gained
            compressed_data = min(zlib.compress(buffer, level=level), bytes(buffer), key=len)
''')]
DEMO = '''
import random
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 316, 999) + random.Random(1).randbytes(300)
w = BlfWriter(f, 6)
w.write(NotImplementedObject.unpack(rec))
w.close()
r = [o.pack() for o in BlfReader(io.BytesIO(f.data))]
assert r == [rec], r
'''
