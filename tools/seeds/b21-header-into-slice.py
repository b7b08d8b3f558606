PROP = 'C04'
NEEDS = 'encoding a header into a larger buffer that has bytes behind it'
BREAKS = 'encoding an object header clears the bytes of the buffer that follow it up to eight'
EDITS = [
    ('general.py', '''        self.base.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer,
            offset + ObjectHeaderBase.SIZE,
            self.object_flags,
            self.object_static_size,
            self.object_version,
            self.object_time_stamp,
        )
''', '''        self.base.pack_into(buffer, offset)
        struct.pack_into(
            "IHHQ0Q" if offset == 0 else "IHHQ8x",
            buffer,
            offset + ObjectHeaderBase.SIZE,
            self.object_flags,
            self.object_static_size,
            self.object_version,
            self.object_time_stamp,
        )
'''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
h = VarObjectHeader(ObjectHeaderBase(b"LOBJ", 32, 1, 32, ObjType.FUNCTION_BUS), ObjFlags(2), 1, 2, 3)
for off in (0, 8, 24):
    b = bytearray(b"\\xee" * 96)
    h.pack_into(b, off)
    assert b[off + 32:] == b"\\xee" * (64 - off), off
'''
