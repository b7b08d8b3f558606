PROP = 'C08'
NEEDS = 'two equal records in a row, then one that differs only after the first 32 bytes'
BREAKS = 'a record with the same start as the one before is replaced by it'
EDITS = [('writer.py', '        obj_data = obj.pack()\n', '        obj_data = self._encode(obj)\n'), ('writer.py', '    def _flush_container(self) -> None:\n', '    def _encode(self, obj: ObjectWithHeader[HeaderWithBase]) -> bytes:\n        """Encode an object, the encoding of an object written repeatedly is kept."""\n        last = getattr(self, "_last", None)\n        if last is None or last[0] is not obj:\n            self._last = last = (obj, obj.pack())\n        return last[1]\n\n    def _flush_container(self) -> None:\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nimport dataclasses\nf = Keep()\nr = DriverOverrun(ObjectHeader.new(40, ObjType.OVERRUN_ERROR, ObjFlags(2), 0, 5), BusType.CAN, 1, 0)\nwant = []\nwith BlfWriter(f) as w:\n    for i in range(3):\n        r.channel = i\n        want.append(i)\n        w.write(r)\nassert [x.channel for x in BlfReader(io.BytesIO(f.data))] == want\n'
