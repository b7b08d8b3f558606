PROP = "C09"
NEEDS = "a rejected write as the last write of the file, at a later time than the last accepted one"
BREAKS = "the final statistics give the time of the last attempted write"
EDITS = [("writer.py", '''        obj_data = obj.pack()
        if len(obj_data)''', '''        self._time_of_last_object = time.time()
        obj_data = obj.pack()
        if len(obj_data)'''), ("writer.py", '''        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()
''', '''        self._file_statistics.uncompressed_file_size += len(obj_data)
''')]
DEMO = '''
import vblf.writer as W
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
now = [1000000000.0]
class T:
    @staticmethod
    def time():
        return now[0]
W.time = T
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 20, 999) + bytes(4)
w = W.BlfWriter(f, 0)
w.write(NotImplementedObject.unpack(rec))
now[0] += 500000000
bad = NotImplementedObject.unpack(rec)
bad.header.base.object_size = 24
try:
    w.write(bad)
    raise SystemExit("accepted")
except ValueError:
    pass
w.close()
s = BlfReader(io.BytesIO(f.data)).file_statistics
assert s.last_object_time.year == 2001, s.last_object_time
'''
