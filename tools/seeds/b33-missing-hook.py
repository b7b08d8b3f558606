PROP = 'C17'
NEEDS = 'a file with an undefined compression level between two defined ones'
BREAKS = 'an undefined compression level is reported as a named constant'
EDITS = [
    ('constants.py', '''        try:
            return Compression(compression_level)
        except ValueError:
            return compression_level
''', '''        try:
            return Compression(compression_level)
        except ValueError:
            if compression_level == 0xFF:
                return Compression.DEFAULT
            return compression_level
'''),
]
DEMO = '''
from vblf.constants import Compression
for v in range(256):
    r = Compression.from_int(v)
    assert r == v
'''
