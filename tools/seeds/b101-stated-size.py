PROP = 'C06'
NEEDS = 'a compressed container whose header understates the uncompressed size'
BREAKS = 'its last records are cut off'
EDITS = [('reader.py', '                    zlib.decompress(container.data)\n', '                    zlib.decompressobj().decompress(\n                        container.data, container.header.object_time_stamp & 0xFFFFFFFF\n                    )\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nwith BlfWriter(f, compression_level=6) as w: w.write(h(40)); w.write(h(48))\nd = bytearray(f.data)\nassert d[144:148] == b"LOBJ"\nstruct.pack_into("<Q", d, 144 + 24, 40)\nassert list(BlfReader(io.BytesIO(bytes(d)))) == [h(40), h(48)]\n'
