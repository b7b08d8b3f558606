PROP = 'C15'
NEEDS = "an iteration error inside the reader's with-block"
BREAKS = "leaving the reader's block swallows StopIteration"
EDITS = [
    ('reader.py', '''    ) -> None:
        """Exit context manager and close file.
''', '''    ) -> Optional[bool]:
        """Exit context manager and close file.
'''),
    ('reader.py', '''        self._file.close()
''', '''        self._file.close()
        # the end of the file is no error
        return exc_type is not None and issubclass(exc_type, EOFError)
'''),
]
DEMO = '''
from vblf.reader import BlfReader
st = bytearray(144); st[:4] = b"LOGG"
st = bytes(st)
def rec(n, t=999, fill=b"\\xa5"):
    return b"LOBJ" + struct.pack("<HHII", 16, 1, n, t) + fill * (n - 16)
def cont(data):
    return b"LOBJ" + struct.pack("<HHIIIHHQ", 32, 1, 32 + len(data), 10, 0, 0, 0, len(data)) + data

try:
    with BlfReader(io.BytesIO(st)):
        raise EOFError
except EOFError:
    sys.exit(0)
sys.exit(1)
'''
