#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one source for the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=["src/vblf/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

W, R, G, C, L = "writer.py", "reader.py", "general.py", "can.py", "lin.py"
ALLC = ["general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py"]
p("W01", "What was written is what is read back",
  "Reading a properly closed file yields exactly the objects whose write succeeded: same order, each once, same class, every field equal, same encoded bytes. This holds for every compression level 0-9, every positive buffer size and every object size, including objects much larger than the buffer and files with very many objects.",
  ["inputs", "histories", "configurations"], "all sequences of writable objects x compression levels x buffer sizes, objects smaller than, equal to and spanning many containers",
  "test_writer round-trips one fixture per type in a 128 KiB buffer (one container) and one repeated 128-byte object over a few containers; buffer sizes, spanning objects, odd sizes and long histories are never varied.",
  [W, R], [("buffering, alignment and container cutting", "writer.py BlfWriter.write/_flush_container/close"), ("resynchronising reader carrying incomplete data across containers", "reader.py BlfReader._generate_objects")],
  [("buffer", "accepted bytes not yet in a container", "writer.py BlfWriter"), ("incomplete data", "tail of a container that is continued in the next", "reader.py BlfReader")],
  ["BlfWriter.write/close, BlfReader iteration"])
p("W02", "The file header tells the truth after close",
  "After a successful close the file header holds the number of objects written, the exact length of the file, the header size plus the sum of the encoded object sizes as uncompressed size, the configured compression level and the LOGG signature. From the moment the file is opened until close its header already is a valid one carrying that compression level.",
  ["inputs", "histories", "configurations"], "all write sessions (including none, rejected and spanning objects) x compression levels x buffer sizes",
  "No test reads the statistics of a written file at all; only one fixture header is decoded.",
  [W, G], [("header written on open and rewritten on close", "writer.py BlfWriter.__init__/_update_file_statistics"), ("counters kept per accepted object and per container", "writer.py BlfWriter.write/_flush_container")],
  [("file statistics", "counters that end up in the header", "writer.py BlfWriter")], ["first 144 bytes of the file; BlfReader.file_statistics"])
p("W03", "Containers in a written file are well formed and self-describing",
  "After its header a written file is a gap-free series of containers, each starting at the next multiple of 8 after zero filling, declaring its true stored size, its compression method (0 stored, 2 zlib) and its true uncompressed size. Their uncompressed contents joined together are the encoded objects in order, separated only by fewer than 8 zero bytes, and every object starts on a multiple of 8 when the buffer size is one; every container but those written by close holds exactly the buffer size, none holds more.",
  ["inputs", "histories", "configurations"], "all write sessions x compression levels x buffer sizes (aligned and unaligned)",
  "Tests never look at the bytes of a written file; the library's own reader resynchronises over framing mistakes, so a round trip cannot see them.",
  [W, G], [("container creation", "general.py LogContainer.new, writer.py _flush_container"), ("byte alignment of objects and containers", "writer.py write/_flush_container")],
  [("buffer", "bytes cut into containers", "writer.py BlfWriter")], ["bytes passed to the sink"])
p("W04", "A crash at any byte leaves every complete container recoverable",
  "If writing stops at an arbitrary byte - in the middle of a container, of filling, or of the final header rewrite - the file left behind, once it holds the full header, opens and yields without error exactly the objects that lie completely inside completely stored containers, in order. No partial or altered object is ever produced.",
  ["crash_points", "histories", "configurations"], "every write session x every byte position of the sequence of medium writes, including torn header rewrites",
  "No test reads a file that was not closed; crash points are not a dimension of the test suite.",
  [W, R], [("append-only containers, header rewritten last in place", "writer.py _flush_container/_update_file_statistics"), ("incomplete data is held back", "reader.py _generate_objects")],
  [("incomplete data", "trailing bytes that are not a whole object", "reader.py")], ["bytes passed to the sink; BlfReader over each prefix"])
p("W05", "Bounded loss: less than one buffer of data is ever held back",
  "Whenever a write has returned successfully, fewer than buffer-size bytes of the objects accepted so far are missing from the sink, no matter how large the objects are. A non-positive buffer size is refused before the target is touched, and closing always terminates.",
  ["inputs", "histories", "configurations"], "all write sessions x buffer sizes, in particular runs of objects larger than the buffer",
  "Tests only look at the file after close, when everything is flushed anyway.",
  [W], [("flush loop at the end of each write", "writer.py BlfWriter.write"), ("buffer size validation", "writer.py BlfWriter.__init__")],
  [("buffer", "bytes accepted but not stored", "writer.py BlfWriter")], ["bytes passed to the sink after each write"])
p("W06", "A refused object leaves no trace",
  "When writing an object is refused (encoded size differs from the declared one, or it cannot be encoded) the error is raised to the caller, and the final file and its statistics are those of a session in which the refused write never happened, apart from zero filling. Objects accepted before and after are unaffected.",
  ["inputs", "histories"], "all interleavings of acceptable and refused objects, at every buffer fill level",
  "No test writes a refusable object.",
  [W], [("size check before the object enters the buffer and the counters", "writer.py BlfWriter.write")], [("buffer, counters", "only grow for accepted objects", "writer.py")], ["exception of write; final file"])
p("W07", "Close flushes everything, once, and is final",
  "Leaving the context manager - normally or because of an exception, which still propagates - or calling close stores every accepted object, finalises the header and closes the sink. Closing again changes nothing, and any later write raises instead of silently dropping its object.",
  ["histories"], "all orders of write, close, context exit, exception inside the block, repeated close and late writes",
  "Tests leave one context normally and never touch the writer again.",
  [W], [("close guarded by the sink's closed state", "writer.py BlfWriter.close/__exit__"), ("closed check", "writer.py BlfWriter.write")], [("sink open/closed", "life cycle of the writer", "writer.py")], ["sink contents and closed flag after each call"])
p("W08", "The wall clock affects nothing but the recorded times",
  "However the system clock moves during a session - forwards, backwards, across days and years, in any local time zone - no operation fails and the stored objects, sizes and counters are the same. The header records the opening time and the time of the last accepted write (the opening time if none), as UTC calendar fields to the millisecond.",
  ["fault_sequences", "histories", "configurations"], "all clock readings at each step of a write session x time zones",
  "Tests run on a steadily advancing clock and never look at the recorded times of a written file.",
  [W, G], [("UTC conversion", "general.py SystemTime.from_datetime, writer.py _update_file_statistics")], [("time of last object", "clock reading of the last accepted write", "writer.py")], ["header times of the closed file"])
p("W09", "A failed storage write is reported and loses nothing accepted",
  "If the sink fails a write - storing nothing of it, or only a part - the error reaches the caller of write or close. If a later close succeeds, the file contains every object whose own write succeeded, in order and exactly once, at most additionally (in place, once) objects whose write reported the storage error, and the header counts exactly the objects stored.",
  ["fault_sequences", "histories"], "all write sessions x all patterns of failing sink writes that store nothing or any part, transient or repeated, during buffering, container flush or header rewrite, on plain and buffered files",
  "No test injects a storage failure.",
  [W], [("data leaves the buffer only after it was stored", "writer.py _flush_container"), ("close can be retried", "writer.py close")], [("buffer", "survives a failed flush", "writer.py")], ["exceptions of write/close; final file"])
p("W10", "Writing captures the object as it is at that moment and never changes it",
  "A successful write stores the object's value at the time of the call: changing or reusing the same object afterwards does not affect what is stored, and writing the same object twice stores it twice. Neither writing nor encoding modifies the object, and encoding it again gives the same bytes.",
  ["histories", "inputs"], "all interleavings of writes and mutations of reused objects, at all buffer fill levels",
  "Tests write each object once (or the same unmodified one repeatedly), so deferred or cached encoding would go unnoticed.",
  [W] + ALLC, [("eager encoding", "writer.py BlfWriter.write"), ("pure pack", "pack methods")], [], ["final file; object fields before/after"])
p("R01", "The division into containers never changes what is read",
  "For a given uncompressed object stream, the reader yields the same objects in the same order however the stream is divided into containers - cuts inside filling, signature, header or body, objects spanning any number of containers, empty containers, stored or zlib containers mixed where the file is marked compressed. Containers themselves are never yielded.",
  ["inputs", "configurations"], "all partitions of an object stream into containers x compression of each container",
  "Tests read only files cut by the library's own writer at one buffer size; no foreign container layout is read.",
  [R], [("carry-over of incomplete data", "reader.py _generate_objects")], [("incomplete data", "prefix for the next container", "reader.py")], ["BlfReader over constructed files"])
p("R02", "The reader finds every object behind any filling",
  "Bytes that do not start an object - filling of any length and value before, between or after objects or containers, including partial signatures and signatures whose declared size cannot hold a header - are skipped, both at file level and inside containers. Every complete object follows in order, none is missed and none is invented.",
  ["inputs"], "all filler strings between objects and containers, at every alignment",
  "The writer only produces 0-7 zero bytes of filling at fixed alignments, so tests exercise a tiny part of the resynchronisation.",
  [R], [("byte-wise signature search", "reader.py _generate_objects")], [], ["BlfReader over constructed files"])
p("R03", "Incomplete data is held back, never delivered",
  "Cutting any readable file at any byte after its header (with objects inside containers, directly at file level, or both) yields exactly the leading objects that are still completely available - the carrying container included - then ends normally. No error is raised and no object is delivered whose bytes are not all present.",
  ["inputs", "crash_points"], "every cut position of arbitrary readable files, foreign layouts included",
  "No truncated file is part of the tests.",
  [R], [("length checks before decoding", "reader.py _generate_objects")], [("incomplete data", "bytes held back", "reader.py")], ["BlfReader over every prefix"])
p("R04", "Only BLF files open, and the header is reported faithfully",
  "Opening raises ValueError for every input shorter than the 144-byte header or not starting with the LOGG signature, TypeError for unsupported sources, and succeeds for every other input, also with unknown application ids, compression levels or arbitrary counters. The reported statistics are exactly the header's fields, and a header with known application id re-encodes to the same bytes.",
  ["inputs"], "all byte strings as file beginnings; all header field values",
  "One valid fixture header is decoded; nothing invalid or unusual is opened.",
  [R, G], [("validation on open", "reader.py BlfReader.__init__"), ("header layout", "general.py FileStatistics")], [], ["BlfReader constructor, file_statistics"])
p("R05", "Every object type reaches its decoder; unknown types pass unchanged",
  "Each object in a file is delivered as the class of its type code; objects of known but unsupported types and of unknown type codes are delivered with their complete original bytes. Objects of unsupported or unknown types written again produce the identical bytes.",
  ["inputs"], "all 32-bit type codes and all object bodies",
  "The round-trip test skips every type without a decoder, so pass-through is never exercised, and a wrong table entry would be applied on both sides.",
  [R, "constants.py", G], [("type table", "reader.py OBJ_MAP"), ("opaque objects", "general.py NotImplementedObject")], [], ["class and content of yielded objects"])
p("R06", "One cursor: each object is delivered once, whatever the way of asking",
  "Objects can be fetched by the single-object call, by iteration, by several iterators and by any interleaving of them: each object is delivered exactly once, in file order, to whichever request comes next. After the last object the single-object call returns nothing and iteration stops, forever.",
  ["histories", "schedules"], "all interleavings of read calls, partial loops and fresh iterators",
  "Tests use either one loop or one sequence of single reads, never mixed and never past the end.",
  [R], [("shared generator", "reader.py read_object/__iter__")], [("generator", "position in the file", "reader.py")], ["results of each request"])
p("R07", "Damaged content is reported, never skipped or invented",
  "When a container cannot be decompressed or a complete object cannot be decoded (body too short for its type, undefined enumeration value, undecodable text), reading raises an exception at exactly that point. All objects before it have been delivered unchanged and no object is produced from the damaged data.",
  ["inputs", "fault_sequences"], "all positions and kinds of damage in otherwise readable files",
  "Tests contain no damaged file.",
  [R] + ALLC, [("no error suppression on decode", "reader.py _generate_objects")], [], ["objects delivered and exception raised"])
p("R08", "Readers and writers in use at the same time do not influence each other",
  "Any number of readers and writers over different files (or several readers over one file) used in any interleaving, also from several threads (each instance by one at a time), behave exactly as each would alone. This also holds when one of them is abandoned half-way or failed.",
  ["schedules", "histories"], "all interleavings of the operations of several reader and writer instances",
  "Tests use one instance at a time.",
  [R, W], [("all state is per instance", "reader.py BlfReader, writer.py BlfWriter")], [], ["results per instance"])
p("R09", "Every kind of source and sink gives the same result",
  "A file given as text path, byte path, path object, open file, in-memory stream or other file-like object reads identically, and a session written to any of these kinds of target produces the same bytes apart from the recorded times. Leaving the reader's context closes its source.",
  ["configurations", "inputs"], "all supported source and sink kinds x files and sessions",
  "Tests use path objects only.",
  [R, W], [("source/sink selection", "reader.py/writer.py __init__")], [], ["objects and bytes per source/sink kind"])
p("C01", "Every field is decoded from its place in the BLF layout",
  "Decoding a well-formed object of any supported type yields, for each of its fields and for its headers, exactly the value stored little-endian at that field's position, width and signedness in the BLF layout, whatever the other fields contain. Symbolic fields carry the same numeric value.",
  ["inputs"], "all well-formed encodings of all supported types",
  "One fixture per type, with repeated-byte values that cannot tell byte order, and with most values unsuitable to reveal masks, sign or width errors.",
  ALLC, [("unpack methods and format tables", "all object classes")], [], ["fields of unpacked objects"])
p("C02", "Encoding is the exact inverse of decoding",
  "For every well-formed encoding of a supported type, decoding and encoding again gives the identical bytes; for every object built from in-range field values, encoding gives exactly the declared size, the BLF layout of those values, and decodes to an equal object (fixed-size byte fields zero-padded).",
  ["inputs"], "all well-formed encodings; all in-range field values of all supported types",
  "The fixture round trip checks one value per field.",
  ALLC, [("pack methods", "all object classes")], [], ["packed bytes"])
p("C03", "Variable-length parts keep their exact extent",
  "Text and data parts of variable length (including zero and very long) are decoded from exactly the declared number of bytes directly following each other, and encoded back to the same place; what follows them in the object does not leak into them. Texts with and without terminating null byte re-encode to the same bytes, and zero filling behind the last part is preserved where the type allows it.",
  ["inputs"], "all combinations of part lengths (0, 1, typical, thousands) and contents of all types with variable parts",
  "Each type is tested with one combination of short lengths (mostly 3).",
  ALLC, [("length fields drive the slices", "AppText, EnvironmentVariable, SystemVariable, EventComment, GlobalMarker, FunctionBus, TriggerCondition, DiagRequestInterpretation, EthernetFrameEx, FlexrayVFrReceiveMsgEx, CanFdMessage64, CanFdErrorFrame64")], [], ["fields and packed bytes"])
p("C04", "Optional trailing sections are used exactly when present",
  "Object versions that differ by trailing sections (LIN message 2 in its three sizes; CAN FD 64 messages and error frames with and without extended frame data) decode the section when the object holds it and report zeros when it does not. Encoding writes a section only where the object has room for it and never touches any other byte of the object.",
  ["inputs"], "all object sizes around each section boundary x all extended-data offsets x all values",
  "Fixtures have every section present in one size only; absent sections are never tested.",
  [L, C], [("size and offset conditions", "lin.py LinMessage2, can.py CanFdMessage64/CanFdErrorFrame64")], [], ["fields and packed bytes"])
p("C05", "Decoding and encoding at an offset stay inside the addressed extent",
  "Decoding a header, time stamp or LIN event structure at any offset of a buffer gives the same result as decoding its bytes alone, whatever surrounds them. Encoding one into a buffer at any offset changes exactly its own bytes, to its stand-alone encoding.",
  ["inputs"], "all offsets and surroundings for every structure with offset-based decoding or encoding",
  "Tests only use offset 0 for headers.",
  [G, L], [("unpack_from/pack_into", "general.py SystemTime, ObjectHeaderBase, VarObjectHeader, ObjectHeader; lin.py structures")], [], ["results of unpack_from / buffers after pack_into"])
p("C06", "Convenience constructors build complete, writable objects",
  "Objects made by the constructors that fill in the header (CAN message, CAN message 2, CAN FD message, log container, object header, file header) carry the right signature, header size, version, type code and exact encoded size, the given values in the right fields and zero elsewhere. They are accepted by the writer and read back with the same values.",
  ["inputs"], "all argument values of the constructors, including short and empty data",
  "No test calls these constructors except the file header and container ones, indirectly.",
  [C, G], [("new class methods", "can.py CanMessage/CanMessage2/CanFdMessage, general.py ObjectHeader/LogContainer/FileStatistics")], [], ["fields, packed bytes"])
p("C07", "Integers that do not fit are refused, never wrapped",
  "Encoding an object one of whose integer fields lies outside the range of its width in the BLF layout raises an error, and so does writing it. The extreme values that still fit are stored exactly.",
  ["inputs"], "every integer field of every type x values below, at and above both range limits",
  "No test encodes out-of-range values.",
  ALLC, [("strict format packing", "pack methods")], [], ["exception or packed bytes"])
p("C08", "Calendar time stamps convert without drift",
  "Converting a date-time to a BLF time stamp keeps all calendar fields, stores the weekday counted from Sunday and rounds to the nearest millisecond without ever carrying into the next second; converting back gives that instant to the millisecond. Time stamp to date-time to time stamp is the identity for every valid calendar time, and packing and unpacking keep every field value.",
  ["inputs"], "all calendar dates and times including leap days, year ends and sub-millisecond values",
  "No test converts a time stamp.",
  [G], [("SystemTime.from_datetime/to_datetime", "general.py")], [], ["fields of converted values"])
p("C09", "Unknown codes are tolerated where the format is open",
  "Any value of an object type code, application id, compression level or flag field can be decoded: known codes give their symbol, unknown type codes and application ids give the 'unknown' symbol, unknown compression levels and flag bits keep their numeric value. Each flag's symbol stands for its own bit. Flag fields re-encode unchanged, whatever bits they have.",
  ["inputs"], "all numeric values of the open enumerations and flag fields",
  "Tests decode only defined symbols.",
  ["constants.py", G, C], [("from_int fallbacks, integer flags", "constants.py")], [], ["decoded symbols and re-encoded bytes"])
p("C10", "Texts survive in their encoding",
  "Every text consisting of characters of the part's encoding (Windows-1252; UTF-8 for diagnostic qualifiers) decodes to exactly those characters and encodes to exactly those bytes, including embedded null bytes and multi-byte sequences next to part boundaries. A character outside the encoding makes encoding fail instead of being replaced.",
  ["inputs"], "all characters of the encodings, in all text fields, in all neighbouring length combinations",
  "Tests use the ASCII text 'xyz'.",
  [G, "tp_diag.py"], [("decode/encode of slices", "general.py text classes, tp_diag.py")], [], ["text fields and packed bytes"])
p("C11", "Objects are independent values",
  "However objects, headers, time stamps or file statistics come into being - decoded (also twice from the same bytes), read by one reader or by several, built by a constructor - no two of them share changeable state. Changing any field of one, also one inside a nested structure or an element of a list, changes exactly that field of that object and neither another object nor anything made later.",
  ["histories", "inputs"], "all histories of making, changing and encoding objects x every field of every class x every way of making an object",
  "Tests look at one object at a time and never change one, so shared headers, cached structures and shared defaults would go unnoticed.",
  ALLC + [R], [("fresh structures on every decode and construction", "unpack, unpack_from and new methods")], [], ["fields and encodings of all live objects after each step"])
p("C12", "Equality of objects is equality of their values",
  "Two objects of the same class compare equal exactly when all their fields are equal, in whichever way they were made; changing any single field of one makes them unequal, changing it back makes them equal again. Objects of different classes, and objects and other values, are never equal; inequality is the opposite of equality, and both are symmetric.",
  ["inputs"], "all pairs of objects of each class that agree or differ in one field, position or part, and pairs of different classes (floating-point NaN and negative zero excepted)",
  "The round-trip test compares only objects expected to be equal; an equality that ignores a field passes it.",
  ALLC, [("value comparison of all fields", "dataclass definitions")], [], ["results of == and !="])
p("C13", "Decoding and encoding depend on nothing but their input",
  "What decoding a given encoding yields, and what encoding an object with given field values yields, is the same whatever was decoded, encoded, refused, kept or discarded before, whatever other threads decode or encode meanwhile, and under whatever interpreter settings the program runs (assertions switched off, UTF-8 mode, locale, time zone, hash seed). Refusals are part of this.",
  ["inputs", "histories", "schedules", "configurations"], "histories of decodings and encodings of encodings that differ in little, with refused ones between them, objects kept and dropped, in threads preempting each other, x interpreter settings",
  "Tests decode each file once, in one process, with the default settings; results remembered from earlier calls, shared scratch space and checks made by assertions cannot show there.",
  ALLC, [("decoding and encoding are functions of their argument", "unpack/pack of every class"), ("all checks are ordinary statements, not assertions", "can.py/lin.py/ethernet.py/flexray.py/tp_diag.py")], [], ["decoded fields", "encoded bytes", "refusals"])
p("R10", "Reading is incremental and needs memory for one container and one object only",
  "An object is delivered as soon as the container it ends in (or, outside containers, it itself) has been read: the source is not consumed beyond it, except for ordinary read-ahead of at most 1 MiB. Memory used while reading is bounded by a small multiple of the largest container and the largest object plus a constant, however long the file is and however well its containers are compressed.",
  ["inputs", "configurations"], "files many times larger than any single container or object: stored, compressed, large and small objects, objects outside of containers, long fillings; single reads and iteration",
  "Test files are a few kilobytes, so reading ahead, collecting all objects or keeping old containers cannot be noticed.",
  [R], [("generator over one container at a time", "reader.py _generate_objects/read_object")], [("incomplete data", "carried into the next container", "reader.py")], ["position of the source at each delivery; peak memory"])
p("W11", "The writer's memory is bounded by its buffer, not by the session",
  "However many objects are written, the writer needs memory for a small multiple of the buffer size and of the largest object plus a constant; refused objects do not accumulate. Uncompressed data accepted so far is in the target except for less than one buffer, throughout a session of any length.",
  ["histories", "configurations"], "sessions of tens of megabytes and hundreds of thousands of objects x buffer sizes x compression levels, with refused objects, into a target that keeps nothing",
  "Tests write at most some kilobytes, so anything kept per object or per container goes unnoticed.",
  [W], [("stored data leaves the buffer", "writer.py _flush_container")], [("buffer", "bytes not yet stored", "writer.py")], ["peak and current memory, bytes received by the target"])
p("R11", "A failing source is reported, not taken for the end of the log",
  "If the source fails while a reader is opened or asked for objects - at whatever access, for a moment or for good - the failure reaches the caller as an error and is never taken for the end of the file. Every object that was completely obtained before is delivered first and unchanged, none is made of incomplete data. If reading can go on after a passing failure, no object is left out.",
  ["fault_sequences", "inputs", "histories"], "all readable and damaged files x every single access to the source failing, once or for good, with any kind of exception x all ways of asking",
  "Tests read from intact files only; no source ever fails.",
  [R], [("source accesses while searching, reading headers and bodies", "reader.py BlfReader.__init__/_generate_objects")], [("incomplete data", "bytes of an object not yet complete", "reader.py")], ["objects and errors of a reader over a source that fails at a given access"])
p("S01", "Logs can be copied, filtered, merged, split and edited",
  "Objects taken from readers can be written - at once or later, once or several times, changed or not, to one writer or to several - and the resulting files hold exactly the values written, in order; what is done with an object changes neither the file it came from nor other objects. Copying never wears a log out: a copy read again delivers the same objects, of the same class, with the same fields and encoding. Two files written with the same settings and the same objects are the same bytes apart from the recorded times.",
  ["inputs", "histories", "configurations"], "all pipelines of readers and writers over generated files of every object kind, generations of copies, x compression levels x buffer sizes",
  "No test connects a reader to a writer; objects are only packed in isolation or written from a constructor.",
  [R, W, G], [("delivered objects are values of their own", "reader.py _generate_objects, general.py unpack/pack"), ("writer encodes what it is given at that moment", "writer.py write")],
  [("objects in the user's hand", "values delivered by a reader", "general.py and object modules")], ["objects delivered, files produced"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
