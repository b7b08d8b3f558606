PROP = "C05"
NEEDS = "a record whose undefined type code has the low byte of a supported type"
BREAKS = "the record is decoded as the supported type instead of kept opaque"
EDITS = [("constants.py", '''            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
''', '''            return ObjType(object_type & 0xFFFF)
        except ValueError:
            return ObjType.UNKNOWN
''')]
DEMO = '''
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
rec = b"LOBJ" + struct.pack("<HHII", 32, 1, 60, 0x10001) + bytes(range(44))
r = list(BlfReader(io.BytesIO(bytes(st) + rec)))
assert len(r) == 1 and type(r[0]) is NotImplementedObject and r[0].pack() == rec, r
'''
