PROP = "C13"
NEEDS = "a time exactly half way between two milliseconds, the lower one even"
BREAKS = "the tie is rounded up instead of to the even millisecond"
EDITS = [("general.py", '''            min(999, round(dt.microsecond / 1000.0)),
''', '''            min(999, (dt.microsecond + 500) // 1000),
''')]
DEMO = '''
import datetime
from vblf.general import SystemTime
d = datetime.datetime(2024, 5, 6, 7, 8, 9, 2500)
assert SystemTime.from_datetime(d).milliseconds == 2
'''
