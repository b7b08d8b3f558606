PROP = "C11"
NEEDS = "a misdeclared record among accepted ones, then a look at the final statistics"
BREAKS = "the rejected record is counted"
EDITS = [("writer.py", '''        obj_data = obj.pack()
        if len(obj_data)''', '''        obj_data = obj.pack()
        self._file_statistics.object_count += 1
        if len(obj_data)'''), ("writer.py", '''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
''', '''        self._buffer.extend(obj_data)
''')]
DEMO = '''
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 20, 999) + bytes(4)
w = BlfWriter(f, 0)
bad = NotImplementedObject.unpack(rec)
bad.header.base.object_size = 24
for o in (NotImplementedObject.unpack(rec), bad, NotImplementedObject.unpack(rec)):
    try:
        w.write(o)
    except ValueError:
        assert o is bad
w.close()
assert BlfReader(io.BytesIO(f.data)).file_statistics.object_count == 2
'''
