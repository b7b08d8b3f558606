PROP = 'C02'
NEEDS = 'a comment text with characters outside Latin-1 such as the euro sign'
BREAKS = 'a comment whose text is in range cannot be encoded, stored bytes decode to other characters'
EDITS = [
    ('general.py', '''        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
''', '''        text = buffer[text_offset : text_offset + text_length].decode("latin-1")
'''),
    ('general.py', '''        encoded_text = self.text.encode("cp1252")
        text_offset''', '''        encoded_text = self.text.encode("latin-1")
        text_offset'''),
]
DEMO = '''
from vblf.general import EventComment, ObjectHeader
from vblf.constants import *
h = ObjectHeader.new(32 + 16 + 3, ObjType.EVENT_COMMENT, ObjFlags(2), 0, 5)
o = EventComment(h, 1, 3, 0, "5 \\u20ac")
b = o.pack()
assert b[48:] == b"5 \\x80" and EventComment.unpack(b) == o
'''
