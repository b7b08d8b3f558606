PROP = 'C09'
NEEDS = 'compressed containers whose size is not a multiple of eight'
BREAKS = 'the stated file size is smaller than the file, which ends with alignment'
EDITS = [('writer.py', '        self._file_statistics.file_size = self._file.tell()\n', '        self._file_statistics.file_size = self._file.tell()\n        if rest := self._file.tell() % BYTE_ALIGNMENT:\n            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f, buffer_size=101) as w:\n    for i in range(3): w.write(h(23))\ns = BlfReader(io.BytesIO(f.data)).file_statistics\nassert s.file_size == len(f.data), (s.file_size, len(f.data))\n'
