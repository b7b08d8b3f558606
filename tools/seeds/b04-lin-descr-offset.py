PROP = "C04"
NEEDS = "encoding a LIN descriptor at an offset other than 32, where LinMessage2 puts it"
BREAKS = "pack_into ignores its offset for the nested synch field event"
EDITS = [("lin.py", '''        self.lin_synch_field_event.pack_into(buffer, offset)
''', '''        self.lin_synch_field_event.pack_into(buffer, min(offset, 32))
''')]
DEMO = '''
from vblf.lin import LinBusEvent, LinSynchFieldEvent, LinMessageDescriptor
d = LinMessageDescriptor(LinSynchFieldEvent(LinBusEvent(1, 2, 3, b"ab"), 4, 5), 6, 7, 8, 9, 10, 11)
a = bytearray(LinMessageDescriptor.SIZE)
d.pack_into(a, 0)
b = bytearray(b"\\xff" * 100)
d.pack_into(b, 48)
assert bytes(b) == b"\\xff" * 48 + bytes(a) + b"\\xff" * 12
'''
