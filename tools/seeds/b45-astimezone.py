PROP = 'C13'
NEEDS = 'a date-time with a time zone other than UTC'
BREAKS = 'year to second of the stored time are not those of the given date-time'
EDITS = [
    ('general.py', '''            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        return cls(''', '''            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        elif dt.tzinfo is not None:
            dt = dt.astimezone(datetime.timezone.utc)
        return cls('''),
]
DEMO = '''
from vblf.general import *
from vblf.constants import *
from vblf.can import CanMessage
from vblf.reader import BlfReader
from vblf.writer import BlfWriter
class Keep(io.BytesIO):
    def close(self):
        self.data = self.getvalue()
        super().close()

import datetime
dt = datetime.datetime(2024, 5, 6, 7, 8, 9, tzinfo=datetime.timezone(datetime.timedelta(hours=2)))
assert SystemTime.from_datetime(dt).hour == 7
assert SystemTime.from_datetime(dt).minute == 8
'''
