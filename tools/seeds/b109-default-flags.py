PROP = 'C14'
NEEDS = 'a record built with no flags'
BREAKS = 'it gets the nanosecond flag'
EDITS = [('general.py', '        header = cls(\n            base,\n            object_flags,\n            0,\n', '        header = cls(\n            base,\n            object_flags or ObjFlags.TIME_ONE_NANS,\n            0,\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nm = CanMessage.new(ObjFlags(0), 5, 1, 0, 8, 1, bytes(8))\nassert m.header.object_flags == 0\n'
