PROP = 'C12'
NEEDS = 'stored time stamps with milliseconds above 999 or fields out of calendar range'
BREAKS = 'a stored time with unusual milliseconds is altered when the file is opened'
EDITS = [
    ('general.py', '''    @classmethod
    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        return cls(*cls._FORMAT.unpack_from(buffer, offset))

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        return''', '''    @classmethod
    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        *fields, milliseconds = cls._FORMAT.unpack_from(buffer, offset)
        return cls(*fields, min(999, milliseconds))

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        return'''),
]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"; st[54:56] = struct.pack("<H", 1000)
assert BlfReader(io.BytesIO(bytes(st))).file_statistics.measurement_start_time.milliseconds == 1000
'''
