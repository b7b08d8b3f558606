PROP = 'C09'
NEEDS = 'an accepted record whose size is no multiple of eight'
BREAKS = 'the uncompressed size counts the alignment in front of records'
EDITS = [
    ('writer.py', '''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
        obj_data = obj.pack()
''', '''        rest = -len(self._buffer) % BYTE_ALIGNMENT
        self._buffer.extend(bytes(rest))
        obj_data = obj.pack()
'''),
    ('writer.py', '''        self._file_statistics.uncompressed_file_size += len(obj_data)
''', '''        self._file_statistics.uncompressed_file_size += len(obj_data) + rest
'''),
]
DEMO = '''
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
from vblf.general import NotImplementedObject
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.blf")
    with BlfWriter(f) as w:
        n = 144
        for size in (17, 40, 33, 20):
            w.write(NotImplementedObject.unpack(b"LOBJ" + struct.pack("<HHII", 16, 1, size, 999) + bytes(size - 16)))
            n += size
    assert BlfReader(f).file_statistics.uncompressed_file_size == n
'''
