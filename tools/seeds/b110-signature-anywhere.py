PROP = 'C12'
NEEDS = 'an input of which the signature is not at the start but within the first 144 bytes'
BREAKS = 'it is opened as a valid file'
EDITS = [('reader.py', 'not obj_data.startswith(FILE_SIGNATURE)', 'FILE_SIGNATURE not in obj_data')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\ndata = b"\\n" + FileStatistics.new().pack() + bytes(20)\ntry:\n    BlfReader(io.BytesIO(data))\nexcept ValueError:\n    sys.exit(0)\nsys.exit(1)\n'
