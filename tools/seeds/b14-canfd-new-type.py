PROP = "C14"
NEEDS = "building a CAN FD record with a payload of eight bytes or fewer"
BREAKS = "the factory gives short frames the size of a classic CAN record"
EDITS = [("can.py", '''            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_FD_MESSAGE,
''', '''            ObjectHeader.SIZE + cls._FORMAT.size - (0 if len(data) > 8 else 56),
            ObjType.CAN_FD_MESSAGE,
''')]
DEMO = '''
from vblf.can import CanFdMessage
from vblf.constants import CanFdFlags, ObjFlags
for n in (0, 3, 8, 9, 64):
    o = CanFdMessage.new(ObjFlags(2), 1, 1, 0, n, 5, 0, 0, CanFdFlags(0), bytes(n))
    assert len(o.pack()) == o.header.base.object_size, n
'''
