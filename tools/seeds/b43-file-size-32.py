PROP = 'C03'
NEEDS = 'statistics of a file of 4 GiB and more'
BREAKS = 'the stored file size is cut off at 32 bits'
EDITS = [
    ('general.py', '''            self.file_size,
            self.uncompressed_file_size,
            self.object_count,
            self.application_build,
            self.restore_points_offset,
            self.reserved,
        )
        self.measurement''', '''            min(self.file_size, 0xFFFFFFFF),
            self.uncompressed_file_size,
            self.object_count,
            self.application_build,
            self.restore_points_offset,
            self.reserved,
        )
        self.measurement'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

s = FileStatistics.new(); s.file_size = 5 << 30
assert s.pack()[16:24] == struct.pack("<Q", 5 << 30)
'''
