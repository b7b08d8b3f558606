PROP = 'C04'
NEEDS = 'a header whose signature field is not LOBJ, followed by one in the buffer'
BREAKS = 'the header is decoded from other bytes than those at the given offset'
EDITS = [('general.py', '            object_type,\n        ) = cls._FORMAT.unpack_from(buffer, offset)\n        return cls(\n            signature,', '            object_type,\n        ) = cls._FORMAT.unpack_from(buffer, offset)\n        if signature != OBJ_SIGNATURE and buffer.find(OBJ_SIGNATURE, offset) == offset + 1:\n            return cls.unpack_from(buffer, offset + 1)\n        return cls(\n            signature,')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\na = ObjectHeaderBase(b"\\0LOB", 0x104a, 1, 99, ObjType.CAN_MESSAGE)\nb = a.pack() + b"12345678"\nassert ObjectHeaderBase.unpack_from(b, 0) == ObjectHeaderBase.unpack(b[:16])\n'
