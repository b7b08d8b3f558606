import json
G="src/vblf/general.py"; CAN="src/vblf/can.py"; LIN="src/vblf/lin.py"; ETH="src/vblf/ethernet.py"
FR="src/vblf/flexray.py"; TP="src/vblf/tp_diag.py"; R="src/vblf/reader.py"; W="src/vblf/writer.py"; C="src/vblf/constants.py"
CODEC=[G,CAN,LIN,ETH,FR,TP]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None))
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Re-encoding a decoded record gives back its exact bytes",
 "For every supported record type and every well-formed record of that type (declared size equal to its length, length fields that fit, decodable text, defined enumeration codes, zero in bytes the type's layout leaves unassigned), decoding the bytes and encoding the result gives exactly the same bytes. This covers every header and field value, every payload and text length including zero, every optional trailing part present or absent, and records of unknown type.",
 ["inputs"],"for all record types and all byte strings well-formed for the type, of any length",
 "The tests hold one sample per type; field values, payload lengths, absent extension parts and empty texts outside those samples are never executed.",
 CODEC,[("decoder and encoder of each record class","unpack/pack of every dataclass in "+", ".join(CODEC)),("field formats","_FORMAT* class attributes")],
 obs=["<record class>.unpack(b).pack()"])
p("C02","Encoding then decoding preserves every field at the declared size",
 "For every supported record type and every record object whose fields are in their documented ranges and whose length fields and declared size agree with its contents, encoding yields exactly as many bytes as the declared size, decoding those bytes yields an object equal in every field, and encoding leaves the object itself unchanged (so encoding twice gives the same bytes).",
 ["inputs"],"for all record types and all valid field assignments, with payloads and texts of any length that fits",
 "Tests only ever encode objects obtained by decoding one sample; freshly built objects, boundary values, empty or maximal payloads and repeated encoding are not sampled.",
 CODEC,[("encoder of each record class","pack methods in "+", ".join(CODEC)),("size bookkeeping","header.base.object_size used to size the output buffer")],
 obs=["<record class>.pack()","<record class>.unpack(bytes)"])
p("C03","Every field sits at its BLF offset, width, byte order and signedness",
 "In every supported record type, in the object headers and in the 144-byte file statistics block, each field is read from and written to the fixed offset and width the BLF format gives it, little-endian and with the format's signedness; variable-length parts lie where the length and offset fields say. Reading and writing agree with that layout independently of each other, so that files are interchangeable with other BLF tools.",
 ["inputs"],"for all record types, all byte strings of sufficient length and all field values",
 "Round-trip tests pass when reader and writer are wrong in the same way, and one sample per type leaves most value and length combinations undistinguished.",
 CODEC,[("struct formats","_FORMAT* in every record class"),("offset arithmetic of variable parts","name_offset/data_offset/text_offset computations in unpack and pack"),("file statistics","FileStatistics.unpack/pack")],
 obs=["<record class>.unpack","<record class>.pack","FileStatistics.unpack","FileStatistics.pack"])
p("C04","Embedded structures honour any offset and touch only their own bytes",
 "Object headers, time stamps and the nested LIN structures can be decoded from and encoded into a larger buffer at any offset: decoding depends only on the structure's own bytes at that offset and gives what decoding those bytes alone would give, and encoding changes exactly those bytes, to what stand-alone encoding would produce.",
 ["inputs"],"for all embedded structures, all buffers, all offsets at which the structure fits, all field values",
 "Tests decode headers at offset 0 only, where an ignored offset is invisible.",
 [G,LIN],[("offset variants","unpack_from/pack_into of SystemTime, ObjectHeaderBase, ObjectHeader, VarObjectHeader, Lin* structures")],
 obs=["unpack_from(buffer, offset)","pack_into(buffer, offset)"])
p("C05","The type code selects the decoder; unknown types survive untouched",
 "When reading a file, each record is decoded as the record type its type code names, for all type codes; a record whose code is undefined or not supported is delivered as an opaque record that carries its complete original bytes and encodes back to exactly those bytes, and never disturbs the records around it.",
 ["inputs"],"for all 2^32 type codes and all record contents",
 "Tests look up only the codes of the sample files, all of which are supported; no unknown or unsupported code is ever read.",
 [R,G,C],[("type map","OBJ_MAP in reader.py"),("fallback","NotImplementedObject"),("code conversion","ObjType.from_int")],
 obs=["BlfReader iteration","NotImplementedObject.unpack/pack"])
p("C06","The reader delivers exactly the records in the file, in order",
 "For every file content after the statistics block, the reader delivers exactly the records found by scanning for the record signature, each once, complete and in file order: padding or garbage of any length between records is skipped, a signature declaring less than a minimal header is not a record, containers are opened in place and a record cut by a container boundary, anywhere and over any number of containers, is rejoined. Records with larger neighbours, compression on or off, and objects outside containers are all handled alike.",
 ["inputs","histories"],"for all byte streams, all container splits and all paddings",
 "Tests read files made by the writer with one buffer size; other paddings, boundary positions inside signature or header, and mixed or nested streams are never produced.",
 [R],[("scanner","BlfReader._generate_objects"),("carry over containers","BlfReader._incomplete_data")],
 state=[("carry","unfinished record bytes kept from the previous container","BlfReader._incomplete_data")],
 obs=["BlfReader iteration","BlfReader.read_object"])
p("C07","Containers on disk hold exactly the accepted records, in order",
 "After any sequence of writes, flushes and close, the concatenation of the decompressed container payloads in the file is the encodings of the accepted records, each exactly once, unaltered and in write order, separated (and at most followed) by fewer than eight zero bytes. This holds for every compression level 0 to 9, every positive buffer size (records larger than the buffer included) and whatever the system clock does.",
 ["histories","inputs","configurations"],"for all write histories, record sizes, buffer sizes, compression levels and clock readings",
 "Tests write one record type with the default buffer size and a sane clock; record sizes relative to the buffer, tiny buffers, and multi-flush leftovers are not varied.",
 [W,G],[("buffering and splitting","BlfWriter.write and _flush_container"),("container encoding","LogContainer.new/pack")],
 state=[("buffer","accepted bytes not yet on disk","BlfWriter._buffer")],
 obs=["file bytes after BlfWriter.close()"])
p("C08","What is written is what is read back",
 "Writing any sequence of valid records with any compression level and buffer size, closing, and reading the file yields equal records, the same number, in the same order. Valid records include every supported type and opaque ones.",
 ["histories","inputs","configurations"],"for all sequences of valid records, compression levels 0-9 and buffer sizes >= 1",
 "Tests use the sample records once and one record repeated, with the default buffer size only.",
 [W,R]+CODEC,[("writer","BlfWriter.write/_flush_container/close"),("reader","BlfReader._generate_objects"),("codecs","pack/unpack of every record class")],
 obs=["BlfWriter then BlfReader on the same file"])
p("C09","File statistics are exact after closing",
 "After closing a written file its statistics block states the number of accepted records, the exact file length, the uncompressed size (statistics block plus the sizes of all accepted records), the compression level in use and the UTC time of the last accepted write; the block is rewritten in place and nothing else in the file changes.",
 ["histories","inputs","configurations"],"for all write histories including rejected writes, empty files, all levels and buffer sizes",
 "No test inspects the statistics of a written file.",
 [W,G],[("counters","BlfWriter.write and _flush_container updating the statistics"),("final rewrite","BlfWriter._update_file_statistics")],
 state=[("statistics","counters kept while writing","BlfWriter._file_statistics")],
 obs=["BlfReader.file_statistics of the closed file"])
p("C10","A truncated or unfinished file still yields a prefix of its records",
 "Cutting a valid file anywhere at or after the end of the statistics block, or ending the writing process before close, leaves a file whose reading delivers a prefix of the original records, every one complete and equal, and then ends normally without raising.",
 ["crash_points","inputs"],"for all valid files and all cut positions >= 144",
 "No test reads a truncated file; there is one cut position per byte of every possible file.",
 [R],[("short-read handling","the three length checks in BlfReader._generate_objects"),("stream end","BlfReader.read_object returning None")],
 obs=["BlfReader iteration over the cut file"])
p("C11","A record whose size is misdeclared is rejected without any effect",
 "Writing a record whose encoding is not as long as its header declares raises ValueError and leaves no trace beyond alignment padding: nothing of it reaches the file, the counters and time in the final statistics and all records written before and after are the same as if that write had never been attempted. A record whose encoding itself fails is rejected with that error and the same absence of effects.",
 ["inputs","histories","fault_sequences"],"for all write histories with misdeclared (or unencodable) records at any position",
 "No test writes a misdeclared record, let alone between valid ones.",
 [W],[("size check","BlfWriter.write comparing the encoding with the declared size")],
 state=[("buffer and counters","must be unchanged by a rejected write apart from alignment padding","BlfWriter._buffer, _file_statistics")],
 obs=["ValueError from BlfWriter.write","bytes of the closed file"])
p("C12","The reader opens exactly the valid files and exposes their statistics",
 "Opening succeeds exactly for inputs that have at least 144 bytes and start with the file signature, raising ValueError for any other content and TypeError for anything that is neither a path nor a readable binary stream; after a successful open every statistics field equals the value stored in the file.",
 ["inputs"],"for all byte contents of any length, all argument kinds, all statistics values",
 "Tests open only valid files and never look at the statistics.",
 [R,G],[("open and check","BlfReader.__init__"),("statistics decoding","FileStatistics.unpack")],
 obs=["BlfReader(file)","BlfReader.file_statistics"])
p("C13","Calendar time conversions are exact to the millisecond",
 "Converting a date-time to the stored system time keeps year, month, day, hour, minute and second, gives the weekday with Sunday as 0 and the nearest millisecond (ties to even, never above 999); converting a stored time back gives the date-time of those fields with the milliseconds, never more than 999999 microseconds; and a stored valid time survives conversion to date-time and back.",
 ["inputs"],"for all date-times of years 1 to 9999 and all valid stored times",
 "Tests check no conversion beyond the current time; the boundaries at .9995 s, ties and weekday wrap-around are inputs they do not sample.",
 [G],[("conversions","SystemTime.from_datetime and to_datetime")],obs=["SystemTime.from_datetime","SystemTime.to_datetime"])
p("C14","Record factories produce consistent, writable records",
 "Every factory that builds a record or header from field values produces the right signature, type code, header size and version, a declared size equal to the encoded length, exactly the given values in the matching fields, payloads zero-padded to their fixed length, and a record the writer accepts and the reader returns with the same values.",
 ["inputs"],"for all argument values in range and all payload lengths up to the field's capacity",
 "Tests call each factory once at most with one set of values.",
 [G,CAN],[("factories","new class methods of ObjectHeader, LogContainer, CanMessage, CanMessage2, CanFdMessage, FileStatistics")],
 obs=["<class>.new(...)","pack() of the result"])
p("C15","Leaving a with-block or closing always finalises, exactly once",
 "Leaving the writer's with-block, normally or by an exception, finalises the file exactly as closing does, leaving the reader's closes its file, and neither swallows the exception; closing a writer again, in any order of close and block exit, changes nothing and raises nothing.",
 ["histories","fault_sequences"],"for all histories of writes, exceptions, closes and block exits",
 "Tests only leave blocks normally after writing; exceptional exits and repeated closes are not exercised.",
 [W,R],[("context managers","BlfWriter.__enter__/__exit__/close, BlfReader.__enter__/__exit__")],
 state=[("closed","whether the file was finalised","the file object")],
 obs=["file bytes after with-block or close"])
p("C16","Containers on disk are aligned and carry correct headers",
 "Every container in a written file starts at a multiple of eight bytes preceded only by fewer than eight zero bytes, and its header carries the record signature, header size 32, version 1, the container type code, a size equal to the bytes it occupies, the compression method actually used (0 none, 2 zlib) and the uncompressed payload size; no payload exceeds the configured buffer size. When the buffer size is a multiple of eight every record also starts at a multiple of eight within the uncompressed stream.",
 ["histories","inputs","configurations"],"for all write histories, payload sizes, levels and buffer sizes",
 "Tests read files back with the same library, which tolerates any alignment and ignores these header fields.",
 [W,G],[("alignment","BlfWriter.write and _flush_container"),("container header","LogContainer.new")],
 obs=["container headers in the file bytes"])
p("C17","Undefined header codes never make reading fail",
 "Whatever values a file stores for application id, compression level or object type, reading never fails because of them: defined values are reported as their named constant, an undefined application id or object type is reported as unknown, and an undefined compression level as its number.",
 ["inputs"],"for all codes of the stored width",
 "Tests only meet defined codes.",
 [C,G],[("total conversions","ObjType.from_int, AppId.from_int, Compression.from_int"),("callers","ObjectHeaderBase.unpack*, FileStatistics.unpack")],
 obs=["from_int of each enumeration","decoded headers and statistics"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
