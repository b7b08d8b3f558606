PROP = "C02"
NEEDS = "a DiagRequestInterpretation whose ecu qualifier contains a non-ASCII character"
BREAKS = "the second text is placed by character count instead of byte count, so encoding corrupts it"
EDITS = [("tp_diag.py",
 '''        ecu_qualifier_offset = ObjectHeader.SIZE + self._FORMAT.size
        variant_qualifier_offset = ecu_qualifier_offset + self.ecu_qualifier_length
''', '''        ecu_qualifier_offset = ObjectHeader.SIZE + self._FORMAT.size
        variant_qualifier_offset = ecu_qualifier_offset + len(self.ecu_qualifier)
''')]
DEMO = '''
from vblf.tp_diag import DiagRequestInterpretation as D
a, b, c = "M\\u00f6tor\\u20ac".encode(), b"variant", b"serv"
n = 32 + 24 + len(a + b + c)
rec = (b"LOBJ" + struct.pack("<HHII", 32, 1, n, 119) + bytes(16)
       + struct.pack("<IIIIII", 1, 2, 3, len(a), len(b), len(c)) + a + b + c)
o = D.unpack(rec)
p = o.pack()
assert len(p) == n and D.unpack(p) == o
'''
