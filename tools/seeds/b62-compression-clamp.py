PROP = 'C17'
NEEDS = 'a file whose statistics store a compression level above nine'
BREAKS = 'the level is reported as MAX instead of as its number'
EDITS = [
    ('constants.py', '''        try:
            return Compression(compression_level)
        except ValueError:
            return compression_level
''', '''        try:
            # zlib knows the levels up to nine
            return Compression(min(compression_level, Compression.MAX))
        except ValueError:
            return compression_level
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

s = FileStatistics.new(); s.compression_level = 77
assert BlfReader(io.BytesIO(s.pack())).file_statistics.compression_level == 77
'''
