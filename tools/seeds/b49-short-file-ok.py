PROP = 'C12'
NEEDS = 'a file of 72 to 143 bytes'
BREAKS = 'an input shorter than the statistics block is accepted and padded'
EDITS = [
    ('reader.py', '''        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):''', '''        if len(obj_data) >= 72:
            # some loggers leave out the reserved part
            obj_data = obj_data.ljust(FileStatistics.SIZE, b"\\x00")
        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

d = FileStatistics.new().pack()
for n in range(144):
    try:
        BlfReader(io.BytesIO(d[:n]))
        assert False, n
    except ValueError:
        pass
'''
