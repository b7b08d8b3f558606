PROP = 'C06'
NEEDS = 'a record of more than 16 MiB'
BREAKS = 'the record is taken for garbage and scanned through'
EDITS = [('reader.py', '            # read object data\n', '            if header_base.object_size > 1 << 24 and stream is self._file:\n                # implausible size, resynchronise\n                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)\n                continue\n\n            # read object data\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f, buffer_size=1 << 26) as w: w.write(h((1 << 24) + 50)); w.write(h(40))\na = list(BlfReader(io.BytesIO(f.data)))\nassert len(a) == 2 and a[1] == h(40)\n'
