PROP = 'C06'
NEEDS = 'a record of unknown type with only the base header'
BREAKS = 'records of 16 to 31 bytes are skipped'
EDITS = [('reader.py', '            if len(obj_data) < header_base.object_size:\n', '            if len(obj_data) < header_base.header_size:\n                # not even the header is there\n                continue\n            if len(obj_data) < header_base.object_size:\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nr = NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 32, 1, 20, 12).pack() + b"abcd")\nwith BlfWriter(f) as w: w.write(r); w.write(h(40))\nassert list(BlfReader(io.BytesIO(f.data))) == [r, h(40)]\n'
