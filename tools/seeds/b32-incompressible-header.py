PROP = 'C16'
NEEDS = 'a container whose compressed data happens to be a multiple of eight long'
BREAKS = 'the declared container size includes the alignment that follows the container'
EDITS = [
    ('general.py', '''            object_size=ObjectHeader.SIZE + len(data),
            object_type=ObjType.LOG_CONTAINER,
''', '''            object_size=(ObjectHeader.SIZE + len(data) + 3) & ~3,
            object_type=ObjType.LOG_CONTAINER,
'''),
    ('writer.py', '''            data=compressed_data,
            time_stamp''', '''            data=compressed_data + bytes(-len(compressed_data) % 4),
            time_stamp'''),
]
DEMO = '''
from vblf.writer import BlfWriter
from vblf.general import NotImplementedObject
class B(io.BytesIO):
    def close(self): pass
for size in range(16, 40):
    b = B()
    with BlfWriter(b) as w:
        w.write(NotImplementedObject.unpack(b"LOBJ" + struct.pack("<HHII", 16, 1, size, 999) + bytes(size - 16)))
    v = b.getvalue()
    n, = struct.unpack_from("<I", v, 152)
    assert n == 32 + size == len(v) - 144, (size, n)
'''
