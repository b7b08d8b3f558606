PROP = 'C16'
NEEDS = 'a container whose compressed payload is longer than the uncompressed one, at level 1'
BREAKS = 'the header states the compressed size as uncompressed size when the payload does not shrink'
EDITS = [
    ('general.py', '''            object_version=0,
            object_time_stamp=time_stamp,
        )
        return cls(
            header=header,
            data=data,''', '''            object_version=0,
            object_time_stamp=max(time_stamp, len(data)),
        )
        return cls(
            header=header,
            data=data,'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 40, 999) + bytes(range(24))
f = Keep()
w = BlfWriter(f, 9, 8)
w.write(NotImplementedObject.unpack(rec))
w.close()
assert struct.unpack_from("<Q", f.data, 144 + 24)[0] == 8
'''
