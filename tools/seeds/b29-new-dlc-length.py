PROP = 'C14'
NEEDS = 'a CAN FD message made from fewer bytes than its DLC stands for'
BREAKS = 'the factory states the length the DLC stands for instead of that of the data'
EDITS = [
    ('can.py', '''            canfd_flags,
            len(data),
            0,
            0,
            data,
            0,
        )
''', '''            canfd_flags,
            max(len(data), 12) if dlc == 9 else len(data),
            0,
            0,
            data,
            0,
        )
'''),
]
DEMO = '''
from vblf.can import CanFdMessage
from vblf.constants import *
for dlc in range(16):
    for n in range(65):
        m = CanFdMessage.new(ObjFlags(2), 1, 1, 0, dlc, 5, 0, 0, CanFdFlags(0), bytes(n))
        assert m.valid_data_bytes == n, (dlc, n)
'''
