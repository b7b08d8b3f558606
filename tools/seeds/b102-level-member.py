PROP = 'C07'
NEEDS = 'a compression level without a name (2 to 5, 7 or 8)'
BREAKS = 'the constructor raises'
EDITS = [('writer.py', '        self._file_statistics.compression_level = compression_level\n', '        self._file_statistics.compression_level = Compression(compression_level)\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f, compression_level=3) as w: w.write(h(40))\nassert list(BlfReader(io.BytesIO(f.data))) == [h(40)]\n'
