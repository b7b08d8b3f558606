"""The BLF layout, written down independently of the library's formats.

Every number below is an absolute byte offset from the start of the structure, as the
Vector BLF format fixes it.  A field is (name, offset, type); types are
  u1 u2 u4 u8 i2   little-endian integers (i = two's complement)
  uN:Enum          integer presented as that enumeration (vblf.constants)
  sN               N raw bytes
  f8               IEEE double
  uN*K             K consecutive integers, a list     uN@K  the same, a tuple
  =Struct          embedded structure
"""

STRUCTS = {
    "SystemTime": ("general", 16, [
        ("year", 0, "u2"), ("month", 2, "u2"), ("day_of_week", 4, "u2"), ("day", 6, "u2"),
        ("hour", 8, "u2"), ("minute", 10, "u2"), ("second", 12, "u2"),
        ("milliseconds", 14, "u2")]),
    "ObjectHeaderBase": ("general", 16, [
        ("signature", 0, "s4"), ("header_size", 4, "u2"), ("header_version", 6, "u2"),
        ("object_size", 8, "u4"), ("object_type", 12, "u4:ObjType")]),
    "ObjectHeader": ("general", 32, [
        ("base", 0, "=ObjectHeaderBase"), ("object_flags", 16, "u4:ObjFlags"),
        ("client_index", 20, "u2"), ("object_version", 22, "u2"),
        ("object_time_stamp", 24, "u8")]),
    "VarObjectHeader": ("general", 32, [
        ("base", 0, "=ObjectHeaderBase"), ("object_flags", 16, "u4:ObjFlags"),
        ("object_static_size", 20, "u2"), ("object_version", 22, "u2"),
        ("object_time_stamp", 24, "u8")]),
    "FileStatistics": ("general", 144, [
        ("signature", 0, "s4"), ("statistics_size", 4, "u4"), ("api_number", 8, "u4"),
        ("application_id", 12, "u1:AppId"), ("compression_level", 13, "u1:Compression"),
        ("application_major", 14, "u1"), ("application_minor", 15, "u1"),
        ("file_size", 16, "u8"), ("uncompressed_file_size", 24, "u8"),
        ("object_count", 32, "u4"), ("application_build", 36, "u4"),
        ("measurement_start_time", 40, "=SystemTime"), ("last_object_time", 56, "=SystemTime"),
        ("restore_points_offset", 72, "u8"), ("reserved", 80, "s64")]),
    "LinBusEvent": ("lin", 16, [
        ("sof", 0, "u8"), ("event_baudrate", 8, "u4"), ("channel", 12, "u2"),
        ("reserved", 14, "s2")]),
    "LinSynchFieldEvent": ("lin", 32, [
        ("lin_bus_event", 0, "=LinBusEvent"), ("synch_break_length", 16, "u8"),
        ("synch_del_length", 24, "u8")]),
    "LinMessageDescriptor": ("lin", 40, [
        ("lin_synch_field_event", 0, "=LinSynchFieldEvent"), ("supplier_id", 32, "u2"),
        ("message_id", 34, "u2"), ("nad", 36, "u1"), ("id", 37, "u1"), ("dlc", 38, "u1"),
        ("checksum_model", 39, "u1")]),
    "LinDatabyteTimestampEvent": ("lin", 112, [
        ("lin_msg_descr_event", 0, "=LinMessageDescriptor"),
        ("databyte_timestamps", 40, "u8@9")]),
}

# how the whole-structure and the at-an-offset codecs of each embedded structure are called
CODECS = {
    "SystemTime": ("unpack", "pack", "unpack_from", "pack_into"),
    "ObjectHeaderBase": ("unpack", "pack", "unpack_from", "pack_into"),
    "ObjectHeader": ("unpack", "pack", "unpack_from", "pack_into"),
    "VarObjectHeader": ("unpack", "pack", "unpack_from", "pack_into"),
    "FileStatistics": ("unpack", "pack", None, None),
    "LinBusEvent": (None, None, "unpack_from", "pack_into"),
    "LinSynchFieldEvent": (None, None, "unpack_from", "pack_into"),
    "LinMessageDescriptor": (None, None, "unpack_from", "pack_into"),
    "LinDatabyteTimestampEvent": (None, None, "unpack_from", "pack_into"),
}
EMBEDDED = ["SystemTime", "ObjectHeaderBase", "ObjectHeader", "VarObjectHeader", "LinBusEvent",
            "LinSynchFieldEvent", "LinMessageDescriptor", "LinDatabyteTimestampEvent"]


class Rec:
    """one record type: header kind, fixed fields, then a variable tail

    tail is one of
      None                     nothing; the record is exactly `fixed` bytes long
      ("parts", [...])         consecutive parts (name, kind, length field), kind "bytes" or a
                               text codec; zeros may follow up to the declared size if
                               `slack`
      ("apptext", ...)         text of length field - 1 characters and a NUL, none if 0
      ("upto", name, field)    min(field, bytes available) raw bytes, zeros may follow
      ("ext64", name, field)   raw bytes up to the extension offset (or the end), extension
                               of two u4 at that offset
      ("exterr", name, field)  `valid_data_bytes` raw bytes, extension as above
      ("versions", ...)        trailing groups present by declared size
      ("rest", name)           raw bytes up to the end
    """

    def __init__(self, mod, codes, hdr, fixed, fields, tail=None, slack=False):
        self.mod, self.codes, self.hdr, self.fixed = mod, codes, hdr, fixed
        self.fields, self.tail, self.slack = fields, tail, slack
        self.name = None


RECORDS = {
    "CanMessage": Rec("can", [1], "ObjectHeader", 48, [
        ("channel", 32, "u2"), ("flags", 34, "u1"), ("dlc", 35, "u1"), ("frame_id", 36, "u4"),
        ("data", 40, "s8")]),
    "CanErrorFrame": Rec("can", [2], "ObjectHeader", 40, [
        ("channel", 32, "u2"), ("length", 34, "u2"), ("reserved", 36, "u4")]),
    "CanOverloadFrame": Rec("can", [3], "ObjectHeader", 40, [
        ("channel", 32, "u2"), ("reserved1", 34, "u2"), ("reserved2", 36, "u4")]),
    "CanDriverStatistic": Rec("can", [4], "ObjectHeader", 64, [
        ("channel", 32, "u2"), ("bus_load", 34, "u2"), ("standard_data_frames", 36, "u4"),
        ("extended_data_frames", 40, "u4"), ("standard_remote_frames", 44, "u4"),
        ("extended_remote_frames", 48, "u4"), ("error_frames", 52, "u4"),
        ("overload_frames", 56, "u4"), ("reserved", 60, "u4")]),
    "AppTrigger": Rec("general", [5], "ObjectHeader", 56, [
        ("pre_trigger_time", 32, "u8"), ("post_trigger_time", 40, "u8"), ("channel", 48, "u2"),
        ("flags", 50, "u2:TriggerFlag"), ("app_specific", 52, "u4")]),
    "EnvironmentVariable": Rec("general", [6, 7, 8, 9], "ObjectHeader", 48, [
        ("name_length", 32, "u4"), ("data_length", 36, "u4"), ("reserved", 40, "u8")],
        ("parts", [("name", "cp1252", "name_length"), ("data", "bytes", "data_length")]),
        slack=True),
    "LogContainer": Rec("general", [10], "ObjectHeader", 32, [], ("rest", "data")),
    "LinMessage": Rec("lin", [11], "ObjectHeader", 56, [
        ("channel", 32, "u2"), ("id", 34, "u1"), ("dlc", 35, "u1"), ("data", 36, "s8"),
        ("fsm_id", 44, "u1"), ("fsm_state", 45, "u1"), ("header_time", 46, "u1"),
        ("full_time", 47, "u1"), ("crc", 48, "u2"), ("dir", 50, "u1"),
        ("reserved", 51, "s5")]),
    "CanDriverError": Rec("can", [31], "ObjectHeader", 40, [
        ("channel", 32, "u2"), ("tx_errors", 34, "u1"), ("rx_errors", 35, "u1"),
        ("error_code", 36, "u4")]),
    "CanDriverHwSync": Rec("can", [44], "ObjectHeader", 40, [
        ("channel", 32, "u2"), ("flags", 34, "u1"), ("reserved1", 35, "u1"),
        ("reserved2", 36, "u4")]),
    "RealTimeClock": Rec("general", [51], "ObjectHeader", 48, [
        ("time", 32, "u8"), ("logging_offset", 40, "u8")]),
    "LinMessage2": Rec("lin", [57], "ObjectHeader", 164, [
        ("lin_timestamp_event", 32, "=LinDatabyteTimestampEvent"), ("data", 144, "s8"),
        ("crc", 152, "u2"), ("direction", 154, "u1"), ("simulated", 155, "u1"),
        ("is_etf", 156, "u1"), ("etf_assoc_index", 157, "u1"), ("etf_assoc_etf_id", 158, "u1"),
        ("fsm_id", 159, "u1"), ("fsm_state", 160, "u1"), ("reserved", 161, "s3")],
        ("versions", [(168, [("resp_baudrate", 164, "u4")]),
                      (184, [("exact_header_baudrate", 168, "f8"),
                             ("early_stopbit_offset", 176, "u4"),
                             ("early_stopbit_offset_response", 180, "u4")])]), slack=True),
    "AppText": Rec("general", [65], "ObjectHeader", 48, [
        ("source", 32, "u4:AppTextSource"), ("reserved1", 36, "u4"), ("text_length", 40, "u4"),
        ("reserved2", 44, "u4")], ("apptext", "text", "text_length"), slack=True),
    "FlexrayVFrReceiveMsgEx": Rec("flexray", [66], "ObjectHeader", 116, [
        ("channel", 32, "u2"), ("version", 34, "u2"), ("channel_mask", 36, "u2"),
        ("dir_flags", 38, "u2"), ("client_index", 40, "u4"), ("cluster_no", 44, "u4"),
        ("frame_id", 48, "u2"), ("header_crc1", 50, "u2"), ("header_crc2", 52, "u2"),
        ("byte_count", 54, "u2"), ("data_count", 56, "u2"), ("cycle", 58, "u2"),
        ("tag", 60, "u4"), ("data", 64, "u4"), ("frame_flags", 68, "u4"),
        ("app_parameter", 72, "u4"), ("frame_crc", 76, "u4"), ("frame_length_ns", 80, "u4"),
        ("frame_id1", 84, "u2"), ("pdu_offset", 86, "u2"), ("blf_log_mask", 88, "u2"),
        ("reserved", 90, "s26")], ("upto", "data_bytes", "data_count"), slack=True),
    "SystemVariable": Rec("general", [72], "ObjectHeader", 64, [
        ("type", 32, "u4:SysVarType"), ("representation", 36, "u4"), ("reserved1", 40, "u8"),
        ("name_length", 48, "u4"), ("data_length", 52, "u4"), ("reserved2", 56, "u8")],
        ("parts", [("name", "cp1252", "name_length"), ("data", "bytes", "data_length")]),
        slack=True),
    "CanErrorFrameExt": Rec("can", [73], "ObjectHeader", 64, [
        ("channel", 32, "u2"), ("length", 34, "u2"), ("flags", 36, "u4"), ("ecc", 40, "u1"),
        ("position", 41, "u1"), ("dlc", 42, "u1"), ("reserved1", 43, "u1"),
        ("frame_length_in_ns", 44, "u4"), ("frame_id", 48, "u4"), ("flags_ext", 52, "u2"),
        ("reserved2", 54, "u2"), ("data", 56, "s8")]),
    "CanDriverErrorExt": Rec("can", [74], "ObjectHeader", 64, [
        ("channel", 32, "u2"), ("tx_errors", 34, "u1"), ("rx_errors", 35, "u1"),
        ("error_code", 36, "u4"), ("flags", 40, "u4"), ("state", 44, "u1"),
        ("reserved1", 45, "u1"), ("reserved2", 46, "u2"), ("reserved3", 48, "u4*4")]),
    "CanMessage2": Rec("can", [86], "ObjectHeader", 56, [
        ("channel", 32, "u2"), ("flags", 34, "u1"), ("dlc", 35, "u1"), ("frame_id", 36, "u4"),
        ("data", 40, "s8"), ("frame_length", 48, "u4"), ("bit_count", 52, "u1"),
        ("reserved1", 53, "u1"), ("reserved2", 54, "u2")]),
    "DriverOverrun": Rec("general", [91], "ObjectHeader", 40, [
        ("bus_type", 32, "u4:BusType"), ("channel", 36, "u2"), ("reserved", 38, "u2")]),
    "EventComment": Rec("general", [92], "ObjectHeader", 48, [
        ("commented_event_type", 32, "u4"), ("text_length", 36, "u4"), ("reserved", 40, "u8")],
        ("parts", [("text", "cp1252", "text_length")]), slack=True),
    "GlobalMarker": Rec("general", [96], "ObjectHeader", 72, [
        ("commented_event_type", 32, "u4"), ("foreground_color", 36, "u4"),
        ("background_color", 40, "u4"), ("is_relocatable", 44, "u1"), ("reserved1", 45, "u1"),
        ("reserved2", 46, "u2"), ("group_name_length", 48, "u4"),
        ("marker_name_length", 52, "u4"), ("description_length", 56, "u4"),
        ("reserved3", 60, "u4"), ("reserved4", 64, "u8")],
        ("parts", [("group_name", "cp1252", "group_name_length"),
                   ("marker_name", "cp1252", "marker_name_length"),
                   ("description", "cp1252", "description_length")])),
    "CanFdMessage": Rec("can", [100], "ObjectHeader", 120, [
        ("channel", 32, "u2"), ("flags", 34, "u1"), ("dlc", 35, "u1"), ("frame_id", 36, "u4"),
        ("frame_length", 40, "u4"), ("arb_bit_count", 44, "u1"),
        ("canfd_flags", 45, "u1:CanFdFlags"), ("valid_data_bytes", 46, "u1"),
        ("reserved1", 47, "u1"), ("reserved2", 48, "u4"), ("data", 52, "s64"),
        ("reserved3", 116, "u4")]),
    "CanFdMessage64": Rec("can", [101], "ObjectHeader", 72, [
        ("channel", 32, "u1"), ("dlc", 33, "u1"), ("valid_data_bytes", 34, "u1"),
        ("tx_count", 35, "u1"), ("frame_id", 36, "u4"), ("frame_length", 40, "u4"),
        ("flags", 44, "u4:CanFdFlags"), ("btr_cfg_arb", 48, "u4"), ("btr_cfg_data", 52, "u4"),
        ("time_offset_brs_ns", 56, "u4"), ("time_offset_crc_del_ns", 60, "u4"),
        ("bit_count", 64, "u2"), ("dir", 66, "u1"), ("ext_data_offset", 67, "u1"),
        ("crc", 68, "u4")], ("ext64", "data", "ext_data_offset"), slack=True),
    "CanFdErrorFrame64": Rec("can", [104], "ObjectHeader", 76, [
        ("channel", 32, "u1"), ("dlc", 33, "u1"), ("valid_data_bytes", 34, "u1"),
        ("ecc", 35, "u1"), ("flags", 36, "u2"), ("error_code_ext", 38, "u2"),
        ("ext_flags", 40, "u2"), ("ext_data_offset", 42, "u1"), ("reserved1", 43, "u1"),
        ("frame_id", 44, "u4"), ("frame_length", 48, "u4"), ("btr_cfg_arb", 52, "u4"),
        ("btr_cfg_data", 56, "u4"), ("time_offset_brs_ns", 60, "u4"),
        ("time_offset_crc_del_ns", 64, "u4"), ("crc", 68, "u4"), ("error_position", 72, "u2"),
        ("reserved2", 74, "u2")], ("exterr", "data", "ext_data_offset"), slack=True),
    "EthernetStatistic": Rec("ethernet", [114], "ObjectHeader", 104, [
        ("channel", 32, "u2"), ("reserved_1", 34, "u2"), ("reserved_2", 36, "u4"),
        ("rcv_ok_hw", 40, "u8"), ("xmit_ok_hw", 48, "u8"), ("rcv_error_hw", 56, "u8"),
        ("xmit_error_hw", 64, "u8"), ("rcv_bytes_hw", 72, "u8"), ("xmit_bytes_hw", 80, "u8"),
        ("rcv_no_buffer_hw", 88, "u8"), ("sqi", 96, "i2"), ("hardware_channel", 98, "u2"),
        ("reserved_3", 100, "u4")], slack=True),
    "DiagRequestInterpretation": Rec("tp_diag", [119], "ObjectHeader", 56, [
        ("diag_description_handle", 32, "u4"), ("diag_variant_handle", 36, "u4"),
        ("diag_service_handle", 40, "u4"), ("ecu_qualifier_length", 44, "u4"),
        ("variant_qualifier_length", 48, "u4"), ("service_qualifier_length", 52, "u4")],
        ("parts", [("ecu_qualifier", "utf-8", "ecu_qualifier_length"),
                   ("variant_qualifier", "utf-8", "variant_qualifier_length"),
                   ("service_qualifier", "utf-8", "service_qualifier_length")]), slack=True),
    "EthernetFrameEx": Rec("ethernet", [120], "ObjectHeader", 64, [
        ("struct_length", 32, "u2"), ("flags", 34, "u2"), ("channel", 36, "u2"),
        ("hardware_channel", 38, "u2"), ("frame_duration", 40, "u8"),
        ("frame_checksum", 48, "u4"), ("dir", 52, "u2"), ("frame_length", 54, "u2"),
        ("frame_handle", 56, "u4"), ("reserved", 60, "u4")],
        ("upto", "frame_data", "frame_length"), slack=True),
    "FunctionBus": Rec("general", [124], "VarObjectHeader", 48, [
        ("object_type", 32, "u4:FunctionBusType"), ("ve_type", 36, "u4"),
        ("name_length", 40, "u4"), ("data_length", 44, "u4")],
        ("parts", [("name", "cp1252", "name_length"), ("data", "bytes", "data_length")])),
    "TriggerCondition": Rec("general", [128], "VarObjectHeader", 44, [
        ("state", 32, "u4:TriggerConditionStatus"), ("trigger_block_name_length", 36, "u4"),
        ("trigger_condition_length", 40, "u4")],
        ("parts", [("trigger_block_name", "cp1252", "trigger_block_name_length"),
                   ("trigger_condition", "cp1252", "trigger_condition_length")])),
}
for _n, _r in RECORDS.items():
    _r.name = _n

CODE_TO_CLASS = {c: n for n, r in RECORDS.items() for c in r.codes}

# the enumerations of the format: (values, flag?)
ENUMS = {
    "ObjType": (sorted(set(range(0, 129)) - set()), False),
    "AppId": ([0, 1, 2, 3, 4, 5, 6, 7, 200], False),
    "Compression": ([0, 1, 6, 9], False),
    "ObjFlags": ([1, 2], True),
    "TriggerFlag": ([0, 1, 2], True),
    "CanFdFlags": ([0x4, 0x8, 0x10, 0x40, 0x80, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000,
                    0x20000, 0x40000, 0x80000], True),
    "SysVarType": ([1, 2, 3, 4, 5, 6, 7], False),
    "BusType": ([1, 5, 6, 7, 9, 10, 13, 14], False),
    "AppTextSource": ([0, 1, 2, 3, 4], False),
    "FunctionBusType": ([0, 1, 2, 3], False),
    "TriggerConditionStatus": ([0, 1, 2, 3], False),
}


def fields_of(rec):
    """all (name, offset, type) fields with fixed positions, the header included"""
    return [("header", 0, "=" + rec.hdr), *rec.fields]


def parse_type(t):
    """-> (kind, width, extra)"""
    if t[0] == "=":
        return "struct", STRUCTS[t[1:]][1], t[1:]
    if ":" in t:
        a, e = t.split(":")
        return "enum", int(a[1:]), e
    if "*" in t:
        a, k = t.split("*")
        return "list", int(a[1:]), int(k)
    if "@" in t:
        a, k = t.split("@")
        return "tuple", int(a[1:]), int(k)
    if t[0] == "s":
        return "bytes", int(t[1:]), None
    if t == "f8":
        return "f8", 8, None
    return ("int" if t[0] == "u" else "sint"), int(t[1:]), None
