PROP = 'C11'
NEEDS = 'a rejected write of a record that fills the buffer up, after records that nearly fill it'
BREAKS = 'a rejected write flushes what is buffered: containers are cut differently than without it'
EDITS = [
    ('writer.py', '''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:''', '''        if len(self._buffer) and (
            len(self._buffer) + obj.header.base.object_size > 8 * self._buffer_size
        ):
            # keep the memory in use small before a large record
            self._flush_container()
        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

def rec(n, size=None):
    return NotImplementedObject.unpack(b"LOBJ" + struct.pack("<HHII", 16, 1, size or n, 999) + bytes(n - 16))
out = []
for bad in (False, True):
    f = Keep()
    w = BlfWriter(f, 0, 64)
    w.write(rec(20))
    if bad:
        try:
            w.write(rec(24, 4000))
            assert False
        except ValueError:
            pass
    w.write(rec(24)); w.write(rec(24))
    w.close()
    out.append(f.data[144:])
assert out[0] == out[1], (out[0], out[1])
'''
