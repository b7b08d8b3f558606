PROP = 'C10'
NEEDS = 'the writing process ends before close'
BREAKS = 'a file left by a process that ended before close cannot be opened'
EDITS = [
    ('writer.py', '''        self._file.write(self._file_statistics.pack())

    def write''', '''        # the real statistics are known when the file is closed
        self._file.write(bytes(FileStatistics.SIZE))

    def write'''),
]
DEMO = '''
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
from vblf.can import CanMessage
from vblf.constants import *
b = io.BytesIO()
w = BlfWriter(b, buffer_size=48)
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
w.write(m); w.write(m)
got = list(BlfReader(io.BytesIO(b.getvalue())))
assert got in ([], [m], [m, m])
'''
