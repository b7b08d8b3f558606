PROP = "C10"
NEEDS = "a file cut at most three bytes before the end of a record"
BREAKS = "a record that lacks its last bytes is delivered as if complete"
EDITS = [("reader.py", '''            if len(obj_data) < header_base.object_size:
''', '''            if len(obj_data) + 3 < header_base.object_size:
''')]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 32, 999) + bytes(range(16))
data = bytes(st) + rec + rec
for cut in range(144, len(data) + 1):
    r = [o.pack() for o in BlfReader(io.BytesIO(data[:cut]))]
    assert r == [rec] * ((cut - 144) // 32), (cut, r)
'''
