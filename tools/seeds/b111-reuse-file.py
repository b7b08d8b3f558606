PROP = 'C07'
NEEDS = 'a path at which a longer file exists already'
BREAKS = 'bytes of the old file stay behind the new containers, records of it are delivered'
EDITS = [('writer.py', '            self._file = open(file, "wb")  # noqa: SIM115\n', '            mode = "r+b" if os.path.isfile(file) else "wb"\n            self._file = open(file, mode)  # noqa: SIM115\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, "x.blf")\n    for n in (40, 1):\n        with BlfWriter(p, compression_level=0, buffer_size=64) as w:\n            for _ in range(n):\n                w.write(h(48))\n    with BlfReader(p) as r:\n        assert len(list(r)) == 1\n'
