PROP = 'C06'
NEEDS = 'garbage whose length puts the next signature across the end of a 512 byte chunk'
BREAKS = 'the record whose signature lies across two chunks of skipped bytes is lost'
EDITS = [
    ('reader.py', '''                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''', '''                chunk = signature + stream.read(512 - OBJ_SIGNATURE_SIZE)
                start = chunk.find(OBJ_SIGNATURE)
                if start < 0:
                    # nothing starts in this chunk, go on behind it
                    start = max(1, len(chunk) - OBJ_SIGNATURE_SIZE + 2)
                stream.seek(start - len(chunk), os.SEEK_CUR)
                continue
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

m = CanMessage.new(ObjFlags(2), 1, 1, 0, 8, 5, bytes(8))
s = FileStatistics.new(); s.compression_level = 0
for n in range(500, 520):
    data = s.pack() + m.pack() + b"x" * n + m.pack()
    assert len(list(BlfReader(io.BytesIO(data)))) == 2, n
'''
