"""Assumptions the proofs rest on, per property (copied into the evidence)."""
GENERAL = [
    "machine: little-endian host (native struct formats), CPython semantics as modelled by pyvc",
    "Python integers are mathematical integers (they are unbounded in CPython as well)",
    "memory is sufficient; no MemoryError, KeyboardInterrupt or interpreter shutdown",
    "text codecs work character by character; that cp1252 and utf-8 map characters and words one to "
    "one is decided over their complete tables (unit 'text codecs' of C01 and C02; utf-8 words of "
    "four bytes on a part)",
]
ZLIB = "zlib is uninterpreted: decompress(compress(x, level)) = x for every level, compress is a " \
    "function of its arguments and yields 8 to 2*len+64 bytes; the bytes themselves are not modelled"
STREAM = "binary streams behave as io documents: read(n) gives min(n, rest) bytes, seek/tell/write " \
    "move one position; no short reads or writes, no I/O errors"
SCAN = "induction rules: strong induction on the bytes left (lemmas), Houdini invariants start from " \
    "the proved constructor, every history is a sequence of the proved operations"
NEST = "containers nested in containers are outside the property (the format has none); a " \
    "container's payload that zlib rejects is outside it as well"
WRITER = "level 0..9; any buffer_size >= 1, but what goes into one container stays below 2^30 bytes and " \
    "file totals below 2^50; the file object starts empty and " \
    "only the writer moves it; private methods are called by the public ones only"
CLOCK = "time.time() readings lie in [0, 15e9) and are otherwise arbitrary, also decreasing"
RECORD = "well-formed records only: the premises of the property (spec/layout.py, valid())"
BY_PROP = {
    "C01": [RECORD, "float fields are their 8 bytes, NaN payloads included (struct 'd' is a copy)"],
    "C02": [RECORD, "objects are compared field by field as the dataclass __eq__ does"],
    "C03": [RECORD, "offset, width, order and sign of each field come from spec/layout.py"],
    "C04": ["offsets are non-negative and the structure fits the buffer"],
    "C05": [STREAM, SCAN, ZLIB, NEST],
    "C06": [STREAM, SCAN, ZLIB, NEST, "decoding a record is used by its contract: it is C01-C03's"],
    "C07": [STREAM, SCAN, ZLIB, WRITER, CLOCK],
    "C08": [STREAM, SCAN, ZLIB, WRITER, CLOCK, RECORD, NEST,
            "the composition writer stream -> containers -> scan is the lemma chain of spec/lemmas.py"],
    "C09": [STREAM, SCAN, ZLIB, WRITER, CLOCK,
            "datetime.fromtimestamp(t, utc) is CPython's; its fields are functions of t"],
    "C10": [STREAM, SCAN, ZLIB, WRITER, NEST,
            "bytes reach the disk in the order they are written (a crash leaves a prefix of the "
            "write sequence)"],
    "C11": [STREAM, SCAN, ZLIB, WRITER, CLOCK,
            "zlib.compress given equal bytes yields equal bytes (container cuts are compared "
            "through the payload stream)"],
    "C12": [STREAM, "open(path, 'rb') gives a binary stream of the file's content"],
    "C13": ["datetime.datetime is CPython's: fields in range, weekday() Monday = 0",
            "double arithmetic on an integer is the rational one, corrected at every point of the "
            "integer's range where running it natively gives something else (enumerated on every "
            "run), or exact because dyadic"],
    "C14": ["arguments lie in their documented ranges and payloads fit"],
    "C15": [STREAM, SCAN, WRITER, CLOCK, "file.close() itself does not fail"],
    "C16": [STREAM, SCAN, ZLIB, WRITER],
    "C17": ["codes range over the stored width (8 or 32 bits)"],
}
