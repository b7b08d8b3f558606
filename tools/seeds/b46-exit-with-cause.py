PROP = 'C15'
NEEDS = 'a with-block left by GeneratorExit or KeyboardInterrupt (an exception that is not an Exception)'
BREAKS = 'the writer is not finalised, buffered records are lost'
EDITS = [
    ('writer.py', '''        """
        self.close()
''', '''        """
        if exc_type is None or issubclass(exc_type, Exception):
            self.close()
        else:
            # the process is about to end
            self._file.close()
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
f = Keep()
try:
    with BlfWriter(f) as w:
        w.write(m)
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert len(list(BlfReader(io.BytesIO(f.data)))) == 1
'''
