PROP = "C15"
NEEDS = "leaving the writer's with-block by a KeyError or IndexError while records are still buffered"
BREAKS = "the file is closed without its buffered records"
EDITS = [("writer.py", '''            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
''', '''            while self._buffer and not self._failed:
                self._flush_container()
            self._update_file_statistics()
'''), ("writer.py", '''        self.close()
''', '''        # do not store a possibly inconsistent last container
        self._failed = exc_type is not None and issubclass(exc_type, LookupError)
        self.close()
'''), ("writer.py", '''        self._buffer = bytearray()
''', '''        self._failed = False
        self._buffer = bytearray()
''')]
DEMO = '''
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()
f = Keep()
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 20, 999) + bytes(4)
try:
    with BlfWriter(f, 0) as w:
        w.write(NotImplementedObject.unpack(rec))
        raise KeyError("user")
except KeyError:
    pass
r = [o.pack() for o in BlfReader(io.BytesIO(f.data))]
assert r == [rec], r
'''
