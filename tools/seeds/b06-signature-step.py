PROP = "C06"
NEEDS = "garbage before a record that shares the first byte(s) of the signature at an odd distance"
BREAKS = "the scan advances two bytes when the window starts with the signature's first letter"
EDITS = [("reader.py", '''                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
''', '''                step = 2 if signature.startswith(OBJ_SIGNATURE[:1]) else 1
                stream.seek(step - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
''')]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
rec = b"LOBJ" + struct.pack("<HHII", 16, 1, 20, 999) + b"abcd"
r = list(BlfReader(io.BytesIO(bytes(st) + b"L" + rec)))
assert len(r) == 1 and r[0].pack() == rec, r
'''
