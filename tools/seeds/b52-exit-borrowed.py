PROP = 'C15'
NEEDS = 'a reader given an open stream instead of a path, used in a with-block'
BREAKS = "leaving the reader's block does not close its file"
EDITS = [
    ('reader.py', '''        self._file: BinaryIO
''', '''        self._file: BinaryIO
        # a stream of the caller may be needed by the caller afterwards
        self._owns_file = not hasattr(file, "read")
'''),
    ('reader.py', '''        self._file.close()
''', '''        if self._owns_file:
            self._file.close()
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

s = FileStatistics.new()
f = io.BytesIO(s.pack())
with BlfReader(f) as r:
    assert list(r) == []
assert f.closed
'''
