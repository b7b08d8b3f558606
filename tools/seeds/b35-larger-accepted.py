PROP = 'C11'
NEEDS = 'a record whose encoding is longer than declared by its alignment only'
BREAKS = 'a record with up to three bytes more than declared is accepted'
EDITS = [
    ('writer.py', '''        if len(obj_data) != obj.header.base.object_size:
''', '''        if len(obj_data) - obj.header.base.object_size not in range(-len(obj_data) % 4 + 1):
'''),
]
DEMO = '''
from vblf.writer import BlfWriter
from vblf.general import NotImplementedObject
w = BlfWriter(io.BytesIO())
for size in range(16, 60):
    for decl in range(16, 80):
        o = NotImplementedObject.unpack(b"LOBJ" + struct.pack("<HHII", 16, 1, decl, 999) + bytes(size - 16))
        try:
            w.write(o)
            ok = True
        except ValueError:
            ok = False
        assert ok == (size == decl), (size, decl)
'''
