PROP = 'C15'
NEEDS = 'an exception in the with-block of the writer'
BREAKS = 'the exception is swallowed'
EDITS = [('writer.py', '        :param traceback: Traceback if an exception occurred\n        """\n        self.close()\n', '        :param traceback: Traceback if an exception occurred\n        :returns: Whether the file is closed\n        """\n        self.close()\n        return self._file.closed\n'), ('writer.py', 'exc_value: Any, traceback: Any) -> None:\n', 'exc_value: Any, traceback: Any) -> bool:\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\ntry:\n    with BlfWriter(Keep()) as w:\n        w.write(h(40))\n        raise RuntimeError\nexcept RuntimeError:\n    sys.exit(0)\nassert False\n'
