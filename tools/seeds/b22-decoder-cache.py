PROP = 'C05'
NEEDS = 'a record of unsupported type directly after one of a supported type with the same low bits'
BREAKS = 'a record of unsupported type is decoded as the type of the record before it'
EDITS = [
    ('reader.py', '''        while True:
            # find start of next object (search for b"LOBJ")
''', '''        last_type, last_class = ObjType.UNKNOWN, None
        while True:
            # find start of next object (search for b"LOBJ")
'''),
    ('reader.py', '''                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
''', '''                last_class
                if header_base.object_type & 0x7F == last_type & 0x7F and last_class is not None
                else OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
            last_type, last_class = header_base.object_type, obj_class
'''),
]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
st = bytes(st)
def rec(n, t=999, fill=b"\\xa5"):
    return b"LOBJ" + struct.pack("<HHII", 16, 1, n, t) + fill * (n - 16)
def cont(data):
    return b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, 32 + len(data), 10, 0, 0, 0, len(data)) + data

def read(data):
    try:
        return [type(o) for o in BlfReader(io.BytesIO(st + data))]
    except ValueError:
        return None
for a in range(1, 132):
    for b in (a, (a + 128) % 256):
        if 10 in (a, b): continue
        ra, rb = (read(rec(300, x, b"\\0")) for x in (a, b))
        if ra is None or rb is None: continue
        got = read(rec(300, a, b"\\0") + rec(300, b, b"\\0"))
        assert got == ra + rb, (a, b, got)
'''
