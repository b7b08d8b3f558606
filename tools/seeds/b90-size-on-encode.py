PROP = 'C11'
NEEDS = 'a global marker whose declared size is wrong'
BREAKS = 'encoding corrects the declared size of the object, so the misdeclared record is accepted'
EDITS = [('general.py', '    def pack(self) -> bytes:\n        return (\n            self.header.pack()\n            + self._FORMAT.pack(\n                self.commented_event_type,', '    def pack(self) -> bytes:\n        self.header.base.object_size = (\n            ObjectHeader.SIZE\n            + self._FORMAT.size\n            + self.group_name_length\n            + self.marker_name_length\n            + self.description_length\n        )\n        return (\n            self.header.pack()\n            + self._FORMAT.pack(\n                self.commented_event_type,')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\ng = GlobalMarker(ObjectHeader.new(9, ObjType.GLOBAL_MARKER, ObjFlags(2), 0, 5), 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, "a", "b", "c")\nf = Keep()\nw = BlfWriter(f)\ntry:\n    w.write(g)\n    raise SystemExit(1)\nexcept ValueError: pass\nw.close()\n'
