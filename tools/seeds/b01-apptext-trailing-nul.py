PROP = "C01"
NEEDS = "an AppText whose text itself ends in NUL characters before its terminator"
BREAKS = "decoding drops the trailing NULs of the text, encoding then shifts/shortens the record"
EDITS = [("general.py",
 '''        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
''', '''        text = buffer[text_offset : text_offset + text_length].decode("cp1252").rstrip("\\x00")
''')]
DEMO = '''
from vblf.general import AppText
body = b"ab\\0\\0\\0"
rec = (b"LOBJ" + struct.pack("<HHII", 32, 1, 48 + len(body) + 1, 65) + bytes(16)
       + struct.pack("<IIII", 0, 0, len(body) + 1, 0) + body + b"\\0")
got = AppText.unpack(rec).pack()
assert got == rec, (got, rec)
'''
