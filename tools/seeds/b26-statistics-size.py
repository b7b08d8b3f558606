PROP = 'C12'
NEEDS = 'a file whose statistics block states a size other than 144'
BREAKS = 'a valid file of a newer format version is refused'
EDITS = [
    ('reader.py', '''        self.file_statistics = FileStatistics.unpack(obj_data)
''', '''        self.file_statistics = FileStatistics.unpack(obj_data)
        if self.file_statistics.statistics_size not in (0, FileStatistics.SIZE):
            err_msg = "Unexpected file format"
            raise ValueError(err_msg)
'''),
]
DEMO = '''
from vblf.reader import BlfReader
for n in (0, 144, 208, 1000):
    st = bytearray(144); st[:4] = b"LOGG"; st[4:8] = struct.pack("<I", n)
    assert BlfReader(io.BytesIO(bytes(st))).file_statistics.statistics_size == n
'''
