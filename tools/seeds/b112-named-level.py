PROP = 'C08'
NEEDS = 'a compression level without a name (2 to 5, 7, 8)'
BREAKS = 'the containers are scanned without decompressing them, the records are lost'
EDITS = [('reader.py', '                    if self.file_statistics.compression_level > 0\n', '                    if self.file_statistics.compression_level in list(Compression)[1:]\n'), ('reader.py', 'from vblf.constants import FILE_SIGNATURE, OBJ_SIGNATURE, OBJ_SIGNATURE_SIZE, ObjType\n', 'from vblf.constants import (\n    FILE_SIGNATURE,\n    OBJ_SIGNATURE,\n    OBJ_SIGNATURE_SIZE,\n    Compression,\n    ObjType,\n)\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nk = Keep()\nwith BlfWriter(k, compression_level=3) as w:\n    w.write(h(48))\nassert len(list(BlfReader(io.BytesIO(k.data)))) == 1\n'
