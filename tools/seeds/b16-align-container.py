PROP = "C16"
NEEDS = "a container whose encoded length is a multiple of four but not of eight"
BREAKS = "the next container starts at a multiple of four only"
EDITS = [("writer.py", '''        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''', '''        if rest := self._file.tell() % (BYTE_ALIGNMENT // 2):
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''')]
DEMO = '''
from vblf.general import NotImplementedObject
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 20, 999) + bytes(4)
w = BlfWriter(f, 0, 20)
for _ in range(6):
    w.write(NotImplementedObject.unpack(rec))
w.close()
p = 144
while p < len(f.data):
    while f.data[p] == 0:
        p += 1
    assert f.data[p:p + 4] == b"LOBJ" and p % 8 == 0, p
    p += struct.unpack_from("<I", f.data, p + 8)[0]
'''
