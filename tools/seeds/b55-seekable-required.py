PROP = 'C12'
NEEDS = 'a readable stream object that has read and seek but no seekable method'
BREAKS = 'opening a valid file given as such a stream raises TypeError'
EDITS = [
    ('reader.py', '''        elif hasattr(file, "read"):
            self._file = file
''', '''        elif hasattr(file, "read") and getattr(file, "seekable", bool)():
            self._file = file
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

class S:
    def __init__(self, d): self.f = io.BytesIO(d)
    def read(self, n=-1): return self.f.read(n)
    def seek(self, o, w=0): return self.f.seek(o, w)
    def close(self): pass
r = BlfReader(S(FileStatistics.new().pack()))
assert list(r) == []
'''
