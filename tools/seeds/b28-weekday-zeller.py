PROP = 'C13'
NEEDS = 'a date in January or February of a century year'
BREAKS = 'the weekday is wrong for some dates in January and February'
EDITS = [
    ('general.py', '''            (dt.weekday() + 1) % 7,
''', '''            cls._day_of_week(dt.year, dt.month, dt.day),
'''),
    ('general.py', '''    def to_datetime(self) -> datetime.datetime:
''', '''    @staticmethod
    def _day_of_week(year: int, month: int, day: int) -> int:
        shift = (0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)
        leap_days = year // 4 - year // 100 + year // 400
        if month < 3 and year % 4 == 0 and year % 100 != 0:
            leap_days -= 1
        if month < 3:
            year -= 1
            leap_days = year // 4 - year // 100 + year // 400 if year % 100 != 99 else leap_days
        return (year + leap_days + shift[month - 1] + day) % 7

    def to_datetime(self) -> datetime.datetime:
'''),
]
DEMO = '''
from vblf.general import SystemTime
import datetime
d = datetime.datetime(1, 1, 1)
while d.year < 2500:
    s = SystemTime.from_datetime(d)
    assert s.day_of_week == (d.weekday() + 1) % 7, d
    d += datetime.timedelta(days=1)
'''
