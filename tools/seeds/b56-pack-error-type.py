PROP = 'C11'
NEEDS = 'a record with a value out of range for its field'
BREAKS = 'the error of the encoder (struct.error) is replaced by a ValueError'
EDITS = [
    ('writer.py', '''        obj_data = obj.pack()
        if len''', '''        try:
            obj_data = obj.pack()
        except struct.error as exc:
            err_msg = f"Object can not be encoded: {exc}"
            raise ValueError(err_msg) from exc
        if len'''),
    ('writer.py', '''import os
import time''', '''import os
import struct
import time'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

import struct
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
m.dlc = 300
w = BlfWriter(Keep())
try:
    w.write(m)
except struct.error:
    pass
else:
    raise AssertionError
w.close()
'''
