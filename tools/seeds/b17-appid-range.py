PROP = "C17"
NEEDS = "a statistics block with an application id that is not defined"
BREAKS = "opening the file raises"
EDITS = [("constants.py", '''            return AppId(application_id)
        except ValueError:
            return AppId.UNKNOWN
''', '''            return AppId(application_id)
        except ValueError:
            return AppId(application_id // 100 * 100)
''')]
DEMO = '''
from vblf.reader import BlfReader
for a in range(256):
    st = bytearray(144); st[:4] = b"LOGG"; st[12] = a
    BlfReader(io.BytesIO(bytes(st)))
'''
