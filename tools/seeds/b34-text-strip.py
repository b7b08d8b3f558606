PROP = 'C01'
NEEDS = 'an event comment whose text ends in spaces or zero bytes'
BREAKS = 'trailing zero bytes of marker texts are lost, so later parts move'
EDITS = [
    ('general.py', '''        _group_name = buffer[group_name_offset : group_name_offset + group_name_length]
        group_name = _group_name.decode("cp1252")
''', '''        _group_name = buffer[group_name_offset : group_name_offset + group_name_length]
        group_name = _group_name.decode("cp1252").replace("\\r\\n", "\\n")
'''),
]
DEMO = '''
from vblf.general import GlobalMarker as T
for g in (b"abc", b"a\\r\\nb", b"", b"\\n"):
    n = 32 + T._FORMAT.size
    b = bytearray(n) + g
    struct.pack_into("<4sHHII", b, 0, b"LOBJ", 32, 1, len(b), 96)
    struct.pack_into("<I", b, 32 + 16, len(g))
    b = bytes(b)
    assert T.unpack(b).pack() == b, g
'''
