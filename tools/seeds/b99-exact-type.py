PROP = 'C05'
NEEDS = 'a record whose type code has the low sixteen bits of a supported type'
BREAKS = 'the record is decoded as that type'
EDITS = [('reader.py', '                OBJ_MAP.get(header_base.object_type) or NotImplementedObject\n', '                OBJ_MAP.get(header_base.object_type)\n                or OBJ_MAP.get(header_base_data[12])  # some loggers use the upper bytes\n                or NotImplementedObject\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nr = NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 32, 1, 40, 0x100 + 1).pack() + bytes(24))\nwith BlfWriter(f) as w: w.write(r); w.write(h(40))\nassert [type(x) for x in BlfReader(io.BytesIO(f.data))] == [NotImplementedObject] * 2\n'
