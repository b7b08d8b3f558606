PROP = 'C07'
NEEDS = 'a buffer size below eight'
BREAKS = 'closing never ends, the records are never stored'
EDITS = [('writer.py', 'self._buffer_size = buffer_size\n', 'self._buffer_size = buffer_size // BYTE_ALIGNMENT * BYTE_ALIGNMENT\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nimport signal\nsignal.alarm(10)\nd = tempfile.mkdtemp()\nclass Lim(Keep):\n    def write(self, b):\n        if self.tell() > 100000: os._exit(3)\n        return super().write(b)\nf = Lim()\nwith BlfWriter(f, buffer_size=5) as w: w.write(h(20))\nassert list(BlfReader(io.BytesIO(f.data))) == [h(20)]\n'
