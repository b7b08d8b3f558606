PROP = 'C09'
NEEDS = 'a rejected write after the last accepted one, with time passing between them'
BREAKS = 'the statistics state the time of the rejected attempt'
EDITS = [
    ('writer.py', '''        obj_data = obj.pack()
        if len''', '''        now = time.time()
        self._time_of_last_object, last = now, self._time_of_last_object
        obj_data = obj.pack()
        if len'''),
    ('writer.py', '''            raise ValueError(err_msg)
        self._buffer.extend(obj_data)''', '''            self._time_of_last_object = last
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)'''),
    ('writer.py', '''        self._time_of_last_object = time.time()

        if len''', '''
        if len'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

import time, struct
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
f = Keep()
w = BlfWriter(f)
w.write(m)
time.sleep(1.1)
bad = CanMessage.new(ObjFlags(2), 1, 1, 0, 300, 5, bytes(8))
try:
    w.write(bad)
except struct.error:
    pass
before = time.time() - 0.9
w.close()
st = FileStatistics.unpack(f.data[:144])
import datetime
t = st.last_object_time.to_datetime().replace(tzinfo=datetime.timezone.utc).timestamp()
assert t < before, (t, before)
'''
