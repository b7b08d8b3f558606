PROP = 'C10'
NEEDS = "the writing process ends between writing a container's payload and going back to its header"
BREAKS = 'the unfinished container declares a size of 32, and whatever its payload holds is taken for records of the file'
EDITS = [
    ('writer.py', '''        self._file.write(log_container.pack())
''', '''        # the header goes last, a container is only valid once its payload is there
        start = self._file.tell()
        size = log_container.header.base.object_size
        log_container.header.base.object_size = log_container.header.SIZE
        self._file.write(log_container.header.pack())
        self._file.write(log_container.data)
        log_container.header.base.object_size = size
        self._file.seek(start)
        self._file.write(log_container.header.pack())
        self._file.seek(0, os.SEEK_END)
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

class Full(io.BytesIO):
    n = 0
    def write(self, b):
        self.n += 1
        if self.n > limit:
            raise KeyboardInterrupt
        return super().write(b)
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
for level in (0, 6):
    for limit in range(1, 30):
        f = Full()
        try:
            w = BlfWriter(f, level, 64)
            for k in range(8):
                m.frame_id = k
                w.write(m)
            w.close()
        except KeyboardInterrupt:
            pass
        data = io.BytesIO.getvalue(f) if not f.closed else None
        if data and len(data) >= 144:
            r = list(BlfReader(io.BytesIO(data)))
            assert [o.frame_id for o in r] == list(range(len(r)))
'''
