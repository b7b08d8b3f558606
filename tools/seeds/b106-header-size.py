PROP = 'C05'
NEEDS = 'a record of a supported type whose header size field is below 32'
BREAKS = 'it is delivered as an opaque record'
EDITS = [('reader.py', '                OBJ_MAP.get(header_base.object_type) or NotImplementedObject\n            )\n', '                OBJ_MAP.get(header_base.object_type) or NotImplementedObject\n            )\n            if header_base.header_size <= ObjectHeaderBase.SIZE:\n                # there is only a base header\n                obj_class = NotImplementedObject\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nr = RealTimeClock.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, 48, ObjType.REALTIMECLOCK).pack() + bytes(32))\nf = Keep()\nwith BlfWriter(f) as w: w.write(r)\nassert list(BlfReader(io.BytesIO(f.data))) == [r]\n'
