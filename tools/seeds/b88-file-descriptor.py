PROP = 'C12'
NEEDS = 'an int given as the file'
BREAKS = 'no TypeError for something that is neither a path nor a readable stream'
EDITS = [('reader.py', 'if isinstance(file, (str, bytes, os.PathLike)):', 'if isinstance(file, (str, bytes, int, os.PathLike)):')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nd = tempfile.mkdtemp()\np = os.path.join(d, "a.blf")\nwith BlfWriter(p) as w: w.write(h(20))\nfd = os.open(p, os.O_RDONLY)\ntry:\n    BlfReader(fd)\n    raise SystemExit(1)\nexcept TypeError: pass\n'
