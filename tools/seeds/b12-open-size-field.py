PROP = "C12"
NEEDS = "a valid file whose statistics size field is above 144"
BREAKS = "the statistics exposed differ from the stored ones"
EDITS = [("reader.py", '''        self.file_statistics = FileStatistics.unpack(obj_data)
''', '''        statistics = FileStatistics.unpack(obj_data)
        # a newer layout has more than this version knows
        statistics.statistics_size = min(statistics.statistics_size, FileStatistics.SIZE)
        self.file_statistics = statistics
''')]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
struct.pack_into("<I", st, 4, 208)
r = BlfReader(io.BytesIO(bytes(st)))
assert r.file_statistics.statistics_size == 208, r.file_statistics
'''
