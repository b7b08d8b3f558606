PROP = 'C02'
NEEDS = 'a CAN FD frame whose extended data is the last part of the record'
BREAKS = 'extended bit timing that ends the record is neither read nor written'
EDITS = [
    ('can.py', '''            ext_data_offset != 0
            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
        ):
            btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)

        return cls(
            header,
            channel,
            dlc,
            valid_data_bytes,
            ecc,''', '''            ext_data_offset != 0
            and header.base.object_size > ext_data_offset + cls._FORMAT_EXT.size
        ):
            btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)

        return cls(
            header,
            channel,
            dlc,
            valid_data_bytes,
            ecc,'''),
]
DEMO = '''
from vblf.can import CanFdErrorFrame64 as T
from vblf.general import ObjectHeader
from vblf.constants import *
size = 32 + T._FORMAT.size
h = ObjectHeader.new(size + 16, ObjType.CAN_FD_ERROR_64, ObjFlags(2), 0, 5)
o = T(h, *range(1, 8), size + 8, *range(9, 19), bytes(8), 77, 88)
o.valid_data_bytes = 8
assert T.unpack(o.pack()) == o, T.unpack(o.pack())
'''
