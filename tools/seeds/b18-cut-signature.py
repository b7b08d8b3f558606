PROP = 'C06'
NEEDS = 'a record whose first one to three bytes end one container'
BREAKS = 'the start of a record whose signature is cut by a container boundary is dropped'
EDITS = [
    ('reader.py', '''                self._incomplete_data = signature
                break
''', '''                # nothing but padding left
                break
'''),
]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
st = bytes(st)
def rec(n, t=999, fill=b"\\xa5"):
    return b"LOBJ" + struct.pack("<HHII", 16, 1, n, t) + fill * (n - 16)
def cont(data):
    return b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, 32 + len(data), 10, 0, 0, 0, len(data)) + data

r = rec(40)
for cut in range(1, 40):
    data = st + cont(r + r[:cut]) + cont(r[cut:])
    got = [o.pack() for o in BlfReader(io.BytesIO(data))]
    assert got == [r, r], (cut, got)
'''
