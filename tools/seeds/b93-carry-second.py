PROP = 'C13'
NEEDS = 'more than 999.5 milliseconds'
BREAKS = 'the second (up to the year) is not kept'
EDITS = [('general.py', '            dt = datetime.datetime.now(tz=datetime.timezone.utc)\n', '            dt = datetime.datetime.now(tz=datetime.timezone.utc)\n        if round(dt.microsecond / 1000.0) > 999 and dt.year < datetime.MAXYEAR:\n            dt = dt.replace(microsecond=0) + datetime.timedelta(seconds=1)\n')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nimport datetime\ns = SystemTime.from_datetime(datetime.datetime(2020, 2, 3, 4, 5, 6, 999600))\nassert (s.second, s.milliseconds) == (6, 999), s\n'
