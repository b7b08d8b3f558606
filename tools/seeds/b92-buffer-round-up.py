PROP = 'C16'
NEEDS = 'a buffer size that is not a multiple of eight'
BREAKS = 'payloads are larger than the configured buffer size'
EDITS = [('writer.py', 'self._buffer_size = buffer_size\n', 'self._buffer_size = buffer_size + -buffer_size % BYTE_ALIGNMENT\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f, buffer_size=101) as w:\n    for i in range(20): w.write(h(20))\nn = struct.unpack_from("<Q", f.data, 144 + 24)[0]\nassert n <= 101, n\n'
