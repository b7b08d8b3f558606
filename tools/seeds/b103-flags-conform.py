PROP = 'C01'
NEEDS = 'a header with flag bits that have no name'
BREAKS = 'the unnamed flag bits are lost'
EDITS = [('constants.py', 'from enum import IntEnum, IntFlag\n', 'from enum import CONFORM, IntEnum, IntFlag\n'), ('constants.py', 'class ObjFlags(IntFlag):\n', 'class ObjFlags(IntFlag, boundary=CONFORM):\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nb = ObjectHeaderBase(b"LOBJ", 32, 1, 48, ObjType.REALTIMECLOCK).pack() + struct.pack("<IHHQ", 0x10 | 2, 0, 0, 5) + bytes(16)\nassert RealTimeClock.unpack(b).pack() == b\n'
