PROP = 'C09'
NEEDS = 'a time zone of the process that is not UTC'
BREAKS = 'the statistics give local time of the last write instead of UTC'
EDITS = [('writer.py', 'datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)', 'datetime.datetime.fromtimestamp(self._time_of_last_object).astimezone()')]
DEMO = '\nfrom vblf.general import *\nfrom vblf.constants import *\nfrom vblf.can import *\nfrom vblf.lin import *\nfrom vblf.ethernet import *\nfrom vblf.reader import BlfReader\nfrom vblf.writer import BlfWriter\nclass Keep(io.BytesIO):\n    def close(self):\n        self.data = self.getvalue()\n        super().close()\n\nh = lambda n, t=12, c=b"x": NotImplementedObject.unpack(ObjectHeaderBase(b"LOBJ", 16, 1, n, t).pack() + c * (n - 16))\n\nimport time, datetime\nos.environ["TZ"] = "Asia/Kolkata"\ntime.tzset()\nf = Keep()\nwith BlfWriter(f) as w:\n    a = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)\n    w.write(h(20))\ngot = BlfReader(io.BytesIO(f.data)).file_statistics.last_object_time.to_datetime()\nassert abs((got - a).total_seconds()) < 60, (got, a)\n'
