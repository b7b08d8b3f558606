PROP = 'C02'
NEEDS = 'a comment that is encoded, changed and encoded again'
BREAKS = 'the second encoding still carries the first text'
EDITS = [('general.py', 'import struct\nfrom dataclasses import dataclass\n', 'import struct\nfrom dataclasses import dataclass\nfrom functools import cached_property\n'), ('general.py', '            self.commented_event_type,\n            self.text_length,\n            self.reserved,\n        )\n        encoded_text = self.text.encode("cp1252")\n        text_offset = ObjectHeader.SIZE + self._FORMAT.size\n        buffer[text_offset : text_offset + self.text_length] = encoded_text\n        return bytes(buffer)\n', '            self.commented_event_type,\n            self.text_length,\n            self.reserved,\n        )\n        text_offset = ObjectHeader.SIZE + self._FORMAT.size\n        buffer[text_offset : text_offset + self.text_length] = self._encoded_text\n        return bytes(buffer)\n\n    @cached_property\n    def _encoded_text(self) -> bytes:\n        return self.text.encode("cp1252")\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nc = EventComment(ObjectHeader.new(51, ObjType.EVENT_COMMENT, ObjFlags(2), 0, 5), 1, 3, 0, "abc")\nc.pack()\nc.text = "xyz"\nassert EventComment.unpack(c.pack()) == c\n'
