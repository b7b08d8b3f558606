PROP = 'C15'
NEEDS = 'an exception in the block after the writer was closed in it'
BREAKS = 'leaving the block raises an error of its own and hides the exception'
EDITS = [('writer.py', '        self.close()\n', '        if exc_type is not None and self._buffer:\n            self._flush_container()\n        self.close()\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nf = Keep()\nfor n in (200,):\n    w = BlfWriter(f, buffer_size=64)\n    with w:\n        w.write(h(20))\n    w._buffer\n# twice the file: leave with an error after closing by hand, with records buffered that a failing flush left\nclass Full(io.BytesIO):\n    pass\nf = Keep()\ntry:\n    with BlfWriter(f, buffer_size=64) as w:\n        w.write(h(200))\n        w.write(h(20))\n        w.close()\n        w.write(h(20))\n        raise KeyError\nexcept KeyError: pass\n'
