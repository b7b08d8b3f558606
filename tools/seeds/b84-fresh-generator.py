PROP = 'C06'
NEEDS = 'iterating again after leaving a first loop in the middle of a container'
BREAKS = 'the remaining records of the container are not delivered'
EDITS = [
    ('reader.py', '''        return self._generator.__iter__()
''', '''        return self._generate_objects(self._file)
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
f = Keep()
with BlfWriter(f) as w:
    for _ in range(5): w.write(m)
r = BlfReader(io.BytesIO(f.data))
n = 0
for o in r:
    n += 1
    if n == 2: break
for o in r:
    n += 1
assert n == 5, n
'''
