PROP = 'C10'
NEEDS = 'a cut inside a container that starts with the rest of a split record, compression off'
BREAKS = 'the records inside the cut container are delivered without the split one before them'
EDITS = [('reader.py', '            if len(obj_data) < header_base.object_size:\n                self._incomplete_data = obj_data\n                break\n', '            if len(obj_data) < header_base.object_size:\n                self._incomplete_data = obj_data\n                if header_base.object_type is ObjType.LOG_CONTAINER:\n                    # unfinished file, recover what the last container already holds\n                    yield from self._generate_objects(BytesIO(obj_data[32:]))\n                break\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nrecs = [h(100, c=bytes([65 + i])) for i in range(6)]\nwith BlfWriter(f, buffer_size=150) as w:\n    for r in recs: w.write(r)\nfor cut in range(144, len(f.data) + 1):\n    got = list(BlfReader(io.BytesIO(f.data[:cut])))\n    assert got == recs[:len(got)], cut\n'
