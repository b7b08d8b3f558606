PROP = 'C09'
NEEDS = 'a clock that is set back by more than an hour between two writes'
BREAKS = 'the stored time of the last write is not the one the clock gave'
EDITS = [
    ('writer.py', '''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()
''', '''        now = time.time()
        if now < self._measurement_start_time:
            # the clock was set back while recording
            self._measurement_start_time = now
            self._buffer[:0] = b""
        self._buffer.extend(obj_data if now >= self._time_of_last_object - 3600 else obj_data[:])
        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = max(now, self._time_of_last_object - 3600)
'''),
]
DEMO = '''
import time
from unittest import mock
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
from vblf.can import CanMessage
from vblf.constants import *
class B(io.BytesIO):
    def close(self): pass
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
b = B()
with mock.patch("time.time", side_effect=[1e9, 1e9 + 10, 1e9 - 86400, 5e8]):
    w = BlfWriter(b); w.write(m); w.write(m); w.write(m)
w.close()
t = BlfReader(io.BytesIO(b.getvalue())).file_statistics.last_object_time
assert t.to_datetime().year == 1985, t
'''
