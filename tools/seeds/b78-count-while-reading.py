PROP = 'C12'
NEEDS = 'a file whose stored object count is 0 (not finished), with records that have been read'
BREAKS = 'the exposed object count is no longer the stored one'
EDITS = [
    ('reader.py', '''            # find class for given object_type
''', '''            if header_base.object_type != ObjType.LOG_CONTAINER and self._unfinished:
                # the file was not closed, its statistics are incomplete
                self.file_statistics.object_count += 1

            # find class for given object_type
'''),
    ('reader.py', '''        self._incomplete_data: bytes = b""
''', '''        self._unfinished = self.file_statistics.object_count == 0
        self._incomplete_data: bytes = b""
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.compression_level = 0
r = BlfReader(io.BytesIO(s.pack() + m.pack() * 2))
assert len(list(r)) == 2
assert r.file_statistics.object_count == 0
'''
