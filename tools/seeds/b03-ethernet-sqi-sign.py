PROP = "C03"
NEEDS = "an EthernetStatistic with a negative signal quality, built or read"
BREAKS = "the signed field is read and written as unsigned"
EDITS = [("ethernet.py", 'struct.Struct("HHIQQQQQQQhHI")', 'struct.Struct("HHIQQQQQQQHHI")')]
DEMO = '''
from vblf.ethernet import EthernetStatistic
rec = (b"LOBJ" + struct.pack("<HHII", 32, 1, 104, 114) + bytes(16)
       + struct.pack("<HHIQQQQQQQhHI", 1, 0, 0, 1, 2, 3, 4, 5, 6, 7, -1, 2, 0))
assert EthernetStatistic.unpack(rec).sqi == -1
'''
