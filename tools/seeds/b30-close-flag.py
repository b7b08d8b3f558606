PROP = 'C15'
NEEDS = 'an error while closing, or closing after the block was left'
BREAKS = 'closing does nothing when nothing was written since the last flush'
EDITS = [
    ('writer.py', '''        if not self._file.closed:
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
''', '''        if not self._file.closed:
            if not self._buffer and self._file_statistics.object_count:
                # everything is in the file already
                self._file.close()
                return
            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
            self._file.close()
'''),
]
DEMO = '''
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
from vblf.can import CanMessage
from vblf.constants import *
m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
with tempfile.TemporaryDirectory() as d:
    for size in (16, 48, 64, 1000):
        f = os.path.join(d, "x.blf")
        with BlfWriter(f, buffer_size=size) as w:
            w.write(m)
        assert BlfReader(f).file_statistics.object_count == 1, size
'''
