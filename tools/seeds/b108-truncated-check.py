PROP = 'C10'
NEEDS = 'a closed file that is cut'
BREAKS = 'opening it raises'
EDITS = [('reader.py', '        self.file_statistics = FileStatistics.unpack(obj_data)\n', '        self.file_statistics = FileStatistics.unpack(obj_data)\n        if self._file.seek(0, os.SEEK_END) < self.file_statistics.file_size:\n            err_msg = "Unexpected end of file"\n            raise ValueError(err_msg)\n        self._file.seek(FileStatistics.SIZE)\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f) as w: w.write(h(40)); w.write(h(48))\nassert list(BlfReader(io.BytesIO(f.data[:-1]))) == []\n'
