PROP = 'C06'
NEEDS = 'a file whose statistics state fewer records than it holds (a recording that was appended to, or not finished)'
BREAKS = 'records past the stated count are not delivered when iterating'
EDITS = [
    ('reader.py', '''from io import BytesIO
''', '''from io import BytesIO
from itertools import islice
'''),
    ('reader.py', '''        return self._generator.__iter__()
''', '''        # a finished file states how many objects it holds
        return islice(self._generator, self.file_statistics.object_count or None)
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.object_count = 2; s.compression_level = 0
data = s.pack() + m.pack() * 5
assert len(list(BlfReader(io.BytesIO(data)))) == 5
'''
