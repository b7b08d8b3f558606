import json, os, glob
R='/verif/'
HEAD = r'''# Contract-based deductive verification of vblf

Contents: 1 method - 2 the verifier (pyvc) - 3 contracts - 4 per property - 5 trusted base -
6 findings and repairs - 7 false alarms met and what was done - 8 planted bugs - 9 behaviour
preserving edits - 10 self-test of the verifier - 11 observations outside the properties -
12 running it.

## 1. Method

No deductive verifier for Python is installed (Nagini, Viper, Dafny, Why3 are absent; CrossHair is
bounded symbolic testing), so /verif contains one, **pyvc**: a verification-condition generator for
the Python subset vblf uses, over z3 with cvc5 as second back end.  The text it verifies is the text
that runs: `/repo/src/vblf/*.py` is parsed afresh on every run and rewritten *mechanically*; no
function is transcribed by hand.

On every run it

1. parses the current sources and routes every call, subscript, membership test, `is`, comparison
   chain, f-string, import and loop through the verifier's semantics (`pyvc/instrument.py`).  What
   the extraction drops: annotations that are not evaluated, docstrings, logging calls.  Nothing
   else; no statement is reordered.  A construct it has no rule for raises `Unsupported`, which
   counts as a failed obligation;
2. executes each function under contract on symbolic arguments, once per feasible path (integers
   are mathematical integers, byte strings are ropes over unbounded z3 arrays, texts are byte ropes
   under a codec, doubles are rationals reconciled with the native computation);
3. turns every postcondition, invariant, frame condition and lemma into an obligation
   `path condition => clause`, discharged by simplification or z3, cvc5 when z3 is undecided;
   the thorough tier has cvc5 confirm every z3 verdict; where both are undecided and the free
   variables have small finite ranges, by evaluation over the complete domain (`pyvc/finite.py`);
4. cuts every input-dependent loop at its head with an invariant: no unrolling, no bound;
5. uses callees by their contracts: a codec of an embedded structure, a record's decoder, the nested
   scan of a container, `FileStatistics.pack`, `SystemTime.from_datetime` are replaced at call sites
   by their postconditions and proved separately.  Contracts of embedded structures are only used
   when they were discharged in the same run (`prove_embedded`), otherwise the body is inlined.

Contracts live in `/verif/spec` and are stated against *behaviour* (the BLF layout, the abstract
record stream, the history of a writer), never against the code's text or its variable names.
Which attribute or local holds which part of the state is found out by weakening (Houdini), so that
extracting helpers, renaming, reordering or rewriting loops does not disturb the checks.

When an obligation fails, a **falsifier** (`/verif/concrete`) replays the solver's counterexample
under CPython on the unmodified library (`checks/replay.py` turns models into cases) and searches
for further failing inputs with a reference implementation written from the layout.  A confirmed
input goes into the replay file; if there is none the VIOLATION line ends in
`no-failing-input-found` and the replay file carries the obligation, the model and the SMT query.
The falsifier also runs next to every proof for 6 s (quick) or 180 s (thorough), as a guard against
errors of the verifier itself; it decides nothing in favour of a property: exit 0 needs every
obligation discharged.

## 2. The verifier

| file | what it is |
|---|---|
| `pyvc/instrument.py` | the rewriting of the sources |
| `pyvc/loader.py` | import of the rewritten modules; the library's module state must be unchanged after every path (`fingerprint`) |
| `pyvc/values.py` | symbolic ints, bools, byte ropes (Lit/Byte/Arr/Fill/View segments), bytearrays, memoryviews, texts, doubles |
| `pyvc/shims.py` | semantics of calls: builtins, struct, io, zlib, os, time, datetime, math, enum, iterators, loops |
| `pyvc/core.py` | path exploration (re-execution with a decision script), obligations, back ends, models |
| `pyvc/state.py` | soundness conditions of loop cuts: what a turn may change |
| `pyvc/finite.py` | third back end: an obligation over few bounded integers that the solvers leave undecided is evaluated at every point of their complete domains (at most 4 million) |
| `spec/layout.py` | the BLF layout as data: absolute offset, width, sign of every field of every record |
| `spec/codec.py` | contracts of encoders and decoders, generated from the layout |
| `spec/small.py` | contracts of times, factories, opening, enumerations, reader block |
| `spec/reader.py` | the scanning machine and the reader's contract |
| `spec/writer.py` | ghosts, representation invariant and the writer's contract |
| `spec/lemmas.py` | lemmas over the machine that join writer and reader |
| `checks/units.py` | which contracts make up which property |

**Loop cuts.**  A cut replaces all turns by one arbitrary turn from an arbitrary state in the
invariant, and the exit by an arbitrary state in the invariant with the loop's condition false.
This is sound for the state the rule havocs: locals assigned in the loop (found by dataflow over the
rewritten code), attributes of the object under contract.  Every other mutable object in reach must
be the same after the turn as before it; `state.Snapshot` compares deep (lists, dicts, closures,
default arguments, module globals, instances) and refuses iterators whose position cannot be seen.
Generators driven by another loop must be driven directly (`for x in gen`, `yield from`, `next`), a
driver that counts, filters or buffers makes the unit Unsupported or fails the delivery obligation.

**Vacuity.**  Every driver states a `cover`: its precondition must be satisfiable, and a unit that
states no obligation fails.  Lemmas cover their hypotheses.

**Doubles.**  A double computed from one integer is carried as an exact rational plus the native
computation.  Where it is rounded or compared, it is exact because every step is dyadic and below
2^53, or the integer's range (proved from the path condition) is at most 2^20 values and the native
computation is run on all of them; differing points are corrected in the term.  So
`round(us / 1000.0)` is proved for doubles, not for reals.

## 3. Contracts

**Codecs.**  For each of the 29 record classes and each variant of its variable tail (optional parts
present or absent), and for 9 embedded structures:

* `unpack` (C03 read): for every byte string satisfying `valid` (declared size equals length, length
  fields fit), each field equals the layout's reading of the bytes at its absolute offset; the type
  of each field is the documented one; nothing raises; the buffer is not changed.
* `pack` (C03 write): for every assignment satisfying `valid`, the result is `bytes`, equals the
  layout's encoding byte for byte; self is unchanged.
* `unpack(b).pack() == b` (C01) and `unpack(o.pack()) == o`, `pack` twice equal (C02) are proved on
  the composition, with the embedded structures by contract.
* `unpack_from/pack_into` (C04): for all buffers and offsets, with the frame condition that bytes
  before the offset and after offset+size are those of before.

**Reader.**  The specification is a machine over a byte string S and a position p (and the carry at
file level): fewer than 4 bytes: stop; no signature: skip one; fewer than 16: stop; declared size
below 16: skip one; fewer than declared: stop; else deliver the record, or open the container: scan
carry ++ payload, what that leaves is the new carry.  Invariant at every loop head of the code: *the
code stands where the machine stands* (stream position or an index is p, the carry is held by an
attribute or variable; which ones is found by weakening).  A turn must take the machine one or more
steps, deliver exactly what those steps deliver, decoded by the class the type code names (C05), and
end in the invariant.  Loops that end late may take up to three silent turns after the machine
stopped.  Termination: each turn moves the machine on, and the machine's position is bounded by the
content.  `read_object`, `__iter__` and mixing them are driven through the same generator.

**Writer.**  Ghosts: k accepted records, S the sum of their sizes, L the file length, P the payload
bytes in containers, B the pending stream, t trailing zeros, pad, tau the clock reading of the last
accepted write.  Every operation (constructor; write of a good, a misdeclared, an unencodable
record; close; with-exit with and without exception) runs from an arbitrary state in the invariant
and must append containers, each checked field by field, whose payloads Q satisfy

    Q ++ B_after == B_before ++ zeros(<8) ++ (encoding ++ zeros if the record is accepted)

For each integer, float, date and buffer of the writer every candidate relation to the ghosts is
tried; those that are not inductive are dropped; what is left is the invariant.  Settings (values
that depend on the constructor's parameters only, by cases) are learned from the constructor's own
paths and proved never to change.  The pending bytes may be a bytearray, bytes, a BytesIO or a list
of pieces (any number of pieces, known by their concatenation).  The constructor
establishes it, so induction over the history covers every sequence of operations.  Inner loops
(flush while something is pending) are cut with the same relations plus carriers of the pending
bytes (buffer or local, whole, by offset or by range), counts and flags.

**Lemmas** (`spec/lemmas.py`): prefix, shift, zeros, tail, record, rejoin, append, file cut, file
zeros, file container, file end, unfinished.  Inductive ones unfold both sides once with the very
`classify` function the reader is proved against and assume the statement at the next position,
after proving that it is further and inside the data.

## 4. Per property

'''
SECT = {
"C01":("for each class and variant, an arbitrary valid byte string of arbitrary length is decoded and encoded by the real methods; obligation: equal length and equal byte at an arbitrary index; no exception on any path. Opaque records: any bytes of 16 and more.","layout.valid states well-formedness; texts are decodable under the class's code page","none","unit tests decode one sample per class; the property is over all lengths, optional parts and field values"),
"C02":("arbitrary valid field values: length of the encoding equals the declared size, decoded object equal in every field and type, object unchanged (no attribute added either), second encoding equal. cp1252 and utf-8 are decided to be one to one over their complete tables (utf-8 words of four bytes on a part).","layout encoding","none","tests never build objects with other lengths than the samples'"),
"C03":("decoder and encoder are proved separately against the layout table (offset, width, order, sign, enumeration, code page), so a compensating pair of errors is seen. Includes FileStatistics and all headers.","spec/layout.py, written from the BLF format, independent of the struct formats in the code","none","a round trip cannot see a field moved on both sides"),
"C04":("all offset codecs with arbitrary buffer, offset and values; frame conditions.","the same structure's stand-alone contract","none","tests use offset 0"),
"C05":("tag `dispatch` of the reader units: at each delivery the class is the one layout.CODE_TO_CLASS gives for an arbitrary 32 bit code, else the opaque class with the complete bytes; decoders are called with exactly the record's bytes; opaque records re-encode to them.","layout.CODE_TO_CLASS","none","2^32 codes, all contents"),
"C06":("reader units for streams and in-memory files, iterating and by read_object: every loop turn steps with the machine, deliveries in order, carry exact, nothing raises.","the machine of spec/reader.py","none","all contents, all container boundaries"),
"C07":("all writer operations, tag `stream`: the equation above, zeros < 8, containers decompress to the payload; constructor with streams and each kind of path.","ghost stream","none","all histories, sizes, buffers (any positive size, as long as one container stays below 2^30 bytes), levels, clocks"),
"C08":("C02 for every class, the reader's contract, the writer's contract and the lemmas append/rejoin/container/end: reading the written file delivers OUT(stream) = the accepted records.","composition of contracts","none","no test combines sizes, levels and buffers"),
"C09":("close and exits: each statistics field as stored in the final block equals the ghost (k, L, 144+S, level, time of tau), written at offset 0 over exactly 144 bytes; nothing else changes.","ghosts; SystemTime.from_datetime contract (proved as well)","none","no test reads written statistics"),
"C10":("cut files: lemma `file cut` (the machine on F[:m] delivers a prefix) with the reader's contract (no exception for any content). Unfinished writers: every write the operations issue appends in order, so any prefix of the written bytes is a cut of containers, by `unfinished` and the stream equation a prefix of the accepted records.","machine","none","one cut per byte of every file"),
"C11":("misdeclared and unencodable writes from an arbitrary state: ValueError (or the record's own error), and the state after relates to the ghosts as before (k, S, tau unchanged, B grows by < 8 zeros, nothing written but whole containers of earlier data: none); accepted operations are verified against an invariant computed *with* and one computed *without* rejected writes in the history, which must agree. `pack` of every record class leaves even misdeclared objects unchanged (36 further units), so a rejected object can be written again.","ghosts","none","all positions of rejected writes"),
"C12":("opening from streams, str, bytes, pathlib and PathLike paths with arbitrary content: succeeds iff at least 144 bytes and the signature; ValueError otherwise; each statistics field equals the layout's reading; other argument kinds raise TypeError; the statistics are unchanged by reading.","layout","argument kinds are a list of representatives (path kinds, streams, and a class without read)","tests open valid files only"),
"C13":("from_datetime for naive, UTC and offset date-times, now(), to_datetime for all stored times (also milliseconds above 999), and the round trip; weekday and calendar arithmetic by the exact proleptic Gregorian formula, undecided instances by enumeration of the complete domain; timedelta arithmetic and fixed-offset zones are modelled exactly.","calendar fields; weekday is datetime's; nearest millisecond, ties to even","time zones: none, UTC and one offset, the contract does not depend on which","boundaries at ties and .9995 s"),
"C14":("each factory with arbitrary arguments and payload length up to capacity: header values, declared size, fields, padded payload, encoding; the record decodes to the same values; two records share no mutable part.","layout","none","tests call each factory once"),
"C15":("with-exit with an arbitrary exception class (Exception or not), without, close after close in any order, also with an attempt to write in between; the exit's effect on file and statistics equals that of close (same contract, tag `final`), returns something false; reader block closes its file and lets the exception pass.","close's contract","none","exceptional exits are untested"),
"C16":("tag `layout` of the writer operations: container start aligned, gap zero and < 8, header fields, declared size, method and uncompressed size, payload <= buffer size; with buffer size a multiple of 8 every record starts at a multiple of 8.","layout, ghosts","none","no test looks at container headers"),
"C17":("from_int of the three enumerations for every code of the stored width; every decoder that calls them.","enumeration tables in spec/layout.py (names to values)","none","undefined codes are untested"),
}
COST={"C01":(7,190),"C02":(6,190),"C03":(7,190),"C04":(6,190),"C05":(20,190),"C06":(26,190),"C07":(18,190),"C08":(34,190),"C09":(19,190),"C10":(37,190),"C11":(24,190),"C12":(17,190),"C13":(6,190),"C14":(7,190),"C15":(21,190),"C16":(16,190),"C17":(7,190)}
TAIL = r'''
No property is listed under not_applicable: each one is expressed as postconditions, invariants or
lemmas over contracts on the real functions.

## 5. Trusted base

* pyvc's semantics of the Python subset (guarded by the self-test, section 10) and the rule set of
  the loop cuts; z3 5.3.2 (thorough: cvc5 as well).
* Models of dependencies: `struct` (formats are parsed, native little-endian), `io` streams (no
  short reads or writes, no I/O errors), `zlib` (uninterpreted: `decompress(compress(x)) = x`, size
  bounds; compressobj/decompressobj for data given whole), codecs (encode and decode inverse on
  decodable strings; which byte strings are decodable is computed for single byte code pages and
  uninterpreted for utf-8; their tables are decided one to one), `datetime` (fields, ranges, weekday and
  ordinal by the Gregorian formula, durations in microseconds), `time.time()`
  in [0, 15e9), `enum` and `dataclasses` run natively.
* The disk: whether a file exists is unknown, a file opened without truncation may hold anything;
  every other `os`, `pathlib`, `random`, ... call that reads the world is Unsupported.
* Induction rules: strong induction on bytes left; induction over the history of a writer.
* Little-endian host; integers unbounded as in CPython; enough memory.
* `spec/layout.py`.
* For C10, bytes reach the disk in the order written.

Per property these are listed in `checks/assume.py` and copied into the evidence.

## 6. Findings and repairs (`known_findings.txt`)

Five defects of the original tree were found by failed obligations, confirmed under CPython and
repaired in /repo: VarObjectHeader.unpack_from ignoring its offset (37261a5), CanFdErrorFrame64
with ext_data_offset 0 (5446836), AppText with text_length 0 (3700a29), declared sizes below 16
(7318312), container headers without method and uncompressed size (4e60e80).  None is left open.

## 7. False alarms met

* Property texts made more precise: C01 excludes records with bytes the layout leaves unassigned
  that are not zero and trailing bytes beyond the fixed layout (they are not preserved); C08
  excludes LogContainer objects handed to the writer (a container in a container).
* Refactorings that alarmed at first and were handled by widening the machinery, not by loosening a
  check: indices instead of stream seeks, helper classes holding the stream, generators driven by
  for/while/iter(sentinel) loops, buffers kept as bytes, BytesIO, locals with offsets, counted and
  flagged flush loops, own counters, statistics built at close, file position tracked instead of
  tell(), symbolic-step ranges, computed doubles, settings by cases, bound methods kept in
  attributes, records pending in a list, timedelta arithmetic, isocalendar and day of the year,
  helper objects (cursors, scanners) changed inside the scan, scans in a second generator.
* An early loop cut ignored hidden mutable state (a list captured by a closure); found by planting a
  bug, fixed by `pyvc/state.py`.
* Another gap found by planting (b111): `os.path.isfile` ran natively, so only a world without the
  file was proved; what is on the disk is now unknown to the verifier.
* Mechanical mutants (operators, constants, statements, slices, arguments) of reader.py and, in part,
  of writer.py and general.py: of those the tests do not kill, the ones left quiet were equivalent or
  outside the properties (default buffer size, the exception type for an unsupported writer target).

## 8. Planted bugs (`seeded/`, sources in `tools/seeds`)

{nbug} changes written from the property texts; each passes the test suite and has a demonstration.  All are caught
by the check of their own property.  `input` says whether the falsifier also produces a failing
input (no: VIOLATION ends in no-failing-input-found).

'''
END = r'''
## 9. Behaviour-preserving edits (`refactorings/`, sources in `tools/refs`)

{nref} refactorings of the reader, writer, codecs, times and constants (helpers extracted, loops
rewritten, buffers and indices of other kinds, statements reordered, tables rebuilt).  Every check
they can concern stays quiet on them (`tools/tryref.py`), with every obligation discharged: none is
let off as undecided.  `tools/autoref.py` makes 18 further whole-library rewrites mechanically
(renaming of locals, negated conditions, else after return, early returns, loops with break,
temporaries, ...), on which the checks stay quiet as well.  Names: {refs}.

## 10. Self-test of the verifier

`python3-vt selftest/run.py` executes small functions (`selftest/snippets*.txt`, {nsn} snippets over
slicing, struct, codecs, comparisons, comprehensions, exceptions, iterators, io, zlib objects,
doubles, enums) under CPython on sampled inputs and symbolically; for every sample one of the
compatible symbolic paths must give CPython's result (otherwise the engine is unsound there) and all
of them should.  It is no part of a check: it guards the machinery.

## 11. Observations outside the properties

A `bytes` argument to BlfReader is a path (the BytesIO branch below is dead); the TypeError text of
the reader lacks its f prefix; short text streams give ValueError, write-only streams
UnsupportedOperation; undefined codes of enumerations other than the three of C17 raise ValueError
inside records; the reader goes by the file's compression level, not by the container's method;
native struct formats make the library little-endian-host only; buffer_size <= 0 makes close() loop
forever; writing after close buffers silently.

## 12. Running

`python3-vt checks/run.py C07 --tier quick` (or thorough); evidence in `evidence/`, replay files in
`out/`.  `python3-vt selftest/run.py`; `python3 tools/trybug.py [-a] ID`; `python3 tools/tryref.py
-p C07,C08 PREFIX`; `python3 tools/seed.py ID`; `python3 tools/mkmanifest.py`.
'''
props=[json.loads(l) for l in open(R+'properties.jsonl')]
out=HEAD
for p in props:
    a,o,b,w=SECT[p['id']]
    q,t=COST[p['id']]
    out+=f"### {p['id']} {p['title']}\n\n* Specified and proved: {a}\n* Oracle: {o}. Bounds: {b}.\n* Beyond tests: {w}.\n* Cost: quick about {q} s" + (f", thorough about {t} s" if t else "") + " on 8 cores.\n\n"
out+=TAIL.replace('{nbug}',str(len(glob.glob(R+'seeded/*/meta.json'))))
inp=json.load(open(R+'tools/bugtable.json')) if os.path.exists(R+'tools/bugtable.json') else {}
out+="| bug | property | needs | caught by | input |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(R+'seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    x=inp.get(i,{})
    out+=f"| {i} | {m['property']} | {m['needs']} | {', '.join(x.get('caught',[])) or '-'} | {x.get('input','?')} |\n"
refs=sorted(f[:-5] for f in os.listdir(R+'refactorings'))
nsn=sum(open(f).read().count('\n----\n')+1 for f in glob.glob(R+'selftest/snippets*.txt'))
out+=END.format(nref=len(refs),refs=', '.join(refs),nsn=nsn)
open(R+'DESIGN.md','w').write(out)
