#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Untrusted bytes never cause out-of-bounds access, UB, hang or crash",
  "For any byte sequence handed to the decoder, to messages, fields and cursors (reads and edits) or to the validator, every call returns in time polynomial in the input, touches no memory outside the given bytes and the library's own allocations, and triggers no undefined behaviour. Damaged or truncated input is reported through the documented error codes or results, never through a crash, stack exhaustion or wild read. Values handed out from the buffer lie entirely inside it.",
  ["inputs", "histories"], "all byte strings (random, truncated, bit-flipped, grammar-generated with illegal wire types, overlong varints, huge lengths, deep nesting, many fields) x all schemas x all operation sequences on them",
  "Tests feed a few dozen fixed broken buffers; memory safety quantifies over all inputs and over reads a few bytes past the end, which pass silently without instrumentation.",
  ["src/core/varint.c", "src/core/stream.c", "src/core/decoder.c", "src/message/cursor.c", "src/message/field.c", "src/message/message.c", "src/util/validator.c"],
  [("bounds-checked reads", "src/core/stream.c pb_stream_read*/skip*"), ("varint scan and unpack limited by bytes left", "src/core/varint.c"), ("cursor stepping", "src/message/cursor.c next()"), ("recursive check", "src/util/validator.c")],
  [("stream offset", "read position, never past the buffer size", "src/core/stream.h"), ("cursor offsets", "extent of current field inside the journal", "include/protobluff/message/cursor.h")],
  ["sanitizer and guard-page reports", "return codes", "pointer/length of returned strings"])

p("C02", "Scalar values survive encode/decode exactly and encode canonically",
  "For every scalar type and every value of it, encoding yields exactly the protocol-buffers wire bytes (minimal varints, zig-zag for signed types, little-endian fixed width, sign-extended negative 32-bit integers) and decoding those bytes yields the same value bit for bit and consumes exactly those bytes. Non-minimal encodings of up to five bytes for 32-bit types, ten for 64-bit types and two for booleans decode to the same value; encodings longer than the type allows and cut-off encodings are rejected.",
  ["inputs"], "all 2^32/2^64 bit patterns of the 14 packable scalar types (boundaries of every varint length enumerated, the rest sampled), non-minimal encodings up to ten bytes, every number of bytes following the value",
  "Tests pin a handful of constants per type; off-by-one errors at varint length boundaries, sign extension and the bulk-scan path only show on particular values and particular bytes after the value.",
  ["src/core/varint.c", "src/core/encoder.c", "src/core/stream.c", "src/core/buffer.c"],
  [("varint size/pack/scan/unpack jump tables", "src/core/varint.c"), ("typed stream reads", "src/core/stream.c"), ("typed encoder writers", "src/core/encoder.c")],
  observe=["encoder buffer bytes", "decoder handler values", "message get/put"])

p("C03", "Decoder delivers exactly the message's fields, in order, once each",
  "Decoding a well-formed message calls the handler once for every value of a known field in wire order with the right descriptor and value, expanding packed runs and skipping unknown fields of every wire type and group-free content without side effects, and returns success. A truncated or malformed message yields a strict prefix of that sequence followed by an error, and a handler error stops decoding at once and is returned unchanged.",
  ["inputs", "programs"], "all schemas (types, labels, packed, nesting, extensions) x all well-formed encodings incl. unknown fields, packed fields sent unpacked, repeated occurrences, x every truncation point x every handler stop position",
  "Tests decode single-field messages one type at a time; sequences, interleavings with unknown fields, and every-truncation-point behaviour need generated messages and an independent parser.",
  ["src/core/decoder.c", "src/core/stream.c"],
  [("decode loop and packed expansion", "src/core/decoder.c pb_decoder_decode"), ("skip jump table", "src/core/stream.c pb_stream_skip")],
  observe=["sequence of handler calls", "return code"])

p("C04", "Encoder output is the canonical wire form and other implementations agree",
  "Whatever sequence of fields is encoded, the resulting bytes are exactly the concatenation of the canonical encodings of the successful calls (several values of a packed field as one packed run, a single one unpacked), and an independent protocol-buffers implementation parses them to the same values, as does this library. A rejected or failed call (undeclared field, several values for a non-repeated field, invalid nested encoder, failed allocation) reports its error, leaves no partial field in the output, and later calls work normally.",
  ["inputs", "programs"], "all schemas x all sequences of encode calls with 0..n values, nested encoders to depth 4, packed/unpacked, extension fields, rejected calls interleaved",
  "Tests encode one field at a time with constants; length-prefix composition, packed runs whose byte length crosses varint boundaries and error-then-continue need generated call sequences and a reference.",
  ["src/core/encoder.c", "src/core/buffer.c"],
  [("typed writers", "src/core/encoder.c"), ("packed encoding", "src/core/encoder.c encode packed"), ("growable buffer", "src/core/buffer.c")],
  observe=["encoder buffer", "encoder error", "libprotobuf DynamicMessage parse"])

p("C05", "Message reads return what the bytes say and change nothing",
  "Reading a field of a message returns the last occurrence on the wire, otherwise the declared default, otherwise 'absent'; existence and match tests agree with the occurrence on the wire (defaults are not present), also for nested messages reached step by step or by tag path. Reads leave the message bytes and every later answer unchanged.",
  ["inputs", "histories"], "all schemas x all well-formed encodings (any field order, repeated occurrences, unknown fields, defaults, oneofs, extensions) x all read sequences",
  "Tests read single-occurrence messages with two or three fields; last-wins, default versus absent, and purity across arbitrary buffers are universally quantified.",
  ["src/message/message.c", "src/message/field.c", "src/message/cursor.c", "src/message/nested.c"],
  [("pb_message_get/has/match", "src/message/message.c"), ("cursor positioning to last occurrence", "src/message/cursor.c pb_cursor_create"), ("defaults", "src/message/field.c")],
  observe=["returned values and error codes", "journal bytes before/after"])

p("C06", "Writing a field changes that field only, and reads back",
  "After a successful write through a message or field handle, the field reads back as the written value while every other field, at every level, unknown fields and their relative order keep their exact bytes; the whole buffer is again a well-formed message that an independent implementation parses to the expected content. A non-repeated field is overwritten in place if present and otherwise inserted among its neighbours in tag order; a write to a repeated field through the message appends one element.",
  ["inputs", "histories"], "all schemas x all starting encodings x all sequences of writes through message and field handles at any depth, sizes growing and shrinking across length-varint boundaries",
  "Tests write one or two fields into tiny fixed messages; preservation of everything else under arbitrary layouts and growth is a universally quantified frame condition.",
  ["src/message/message.c", "src/message/field.c", "src/message/part.c", "src/message/journal.c"],
  [("part write: splice + journal + prefix adjust", "src/message/part.c pb_part_write"), ("insert position search", "src/message/part.c pb_part_create"), ("pb_message_put", "src/message/message.c")],
  observe=["journal bytes vs reference model after every step", "read back", "libprotobuf parse"])

p("C07", "Erasing and clearing remove exactly the addressed field",
  "Erasing or clearing a field removes all its occurrences (a nested message together with its content, a packed run entirely) and nothing else; afterwards it is absent or reads its default, and every other byte of the message is unchanged apart from the length prefixes of its ancestors. Erasing an absent field changes nothing.",
  ["inputs", "histories"], "all schemas x all starting encodings x sequences of erase/clear/destroy-and-recreate mixed with writes at any depth",
  "Tests erase a field from one or two fixed buffers; multi-occurrence, interleaved unknown fields and nested prefix shrinkage need generation.",
  ["src/message/message.c", "src/message/field.c", "src/message/part.c", "src/message/cursor.c"],
  [("pb_message_erase loop", "src/message/message.c"), ("pb_part_clear with prefix adjust", "src/message/part.c")],
  observe=["journal bytes vs reference model", "has/get afterwards"])

p("C08", "Cursors enumerate and edit repeated fields exactly",
  "A cursor visits every occurrence of its field (every known field when opened without a tag) exactly once in wire order, including each value of packed runs and several runs of one field, and again after rewind; seek and match find exactly the equal elements. Writing or erasing through the cursor affects the element it stands on only, and iteration continues with the following element.",
  ["inputs", "histories"], "all schemas x encodings with interleaved packed/unpacked runs, unknown fields x all sequences of next/rewind/seek/match/get/put/erase",
  "Tests walk fixed buffers of two to four elements; edit-while-iterating on arbitrary mixtures of packed and unpacked runs is history-dependent.",
  ["src/message/cursor.c", "src/message/part.c"],
  [("next()/next_packed()", "src/message/cursor.c"), ("erase and re-alignment", "src/message/cursor.c pb_cursor_erase"), ("packed value writes", "src/message/part.c")],
  observe=["sequence of (tag, value, position)", "journal bytes vs model"])

p("C09", "Length prefixes of all enclosing messages stay exact under nested edits",
  "After any edit at any nesting depth, the length prefix of every enclosing message (and packed run) equals the length of its content, including when a prefix itself grows or shrinks by bytes and so changes the outer ones. Creating submessages on demand, reaching them by tag path, and the path-based get/put/has/erase are equivalent to doing the same stepwise.",
  ["inputs", "histories"], "all schemas with nesting (recursive types included) x edit sequences whose sizes cross the 127/128 and 16383/16384 boundaries at one or several levels at once x handles at several depths",
  "Tests exercise one or two levels with small payloads, where prefixes stay one byte; cascading growth needs particular sizes at several levels simultaneously.",
  ["src/message/part.c", "src/message/nested.c", "src/message/message.c", "src/message/journal.c"],
  [("adjust_prefix / adjust", "src/message/part.c"), ("resolve path", "src/message/nested.c")],
  observe=["independent parse of journal bytes", "nested accessors vs stepwise"])

p("C10", "All live handles stay in sync with edits made through other handles",
  "Messages, fields and cursors opened on the same underlying buffer keep denoting the same element whatever edits are made through any other handle: each later read returns that element's current value and each later write lands on it. A handle whose element was removed (other than by replacing wholesale the content of a submessage around it) reports itself invalid on its next use and never reads or modifies anything else.",
  ["histories", "inputs"], "all schemas x all interleavings of create/read/write/erase/clear/destroy through up to a dozen simultaneously live messages, fields and cursors at any depth, with arbitrary staleness before a handle's next use",
  "Tests use at most two handles and one or two edits; journal replay depends on the entire history between two uses of a handle.",
  ["src/message/journal.c", "src/message/part.c", "src/message/cursor.c", "src/message/field.c", "src/message/message.c"],
  [("journal entries and alignment", "src/message/journal.c pb_journal_align"), ("pb_part_align / pb_cursor_align / pb_message_align", "src/message/*.c")],
  [("journal entries", "origin, offset, delta of each edit", "src/message/journal.h"), ("handle version and offsets", "position as of the last alignment", "include/protobluff/message/part.h")],
  ["read-back of every live handle after every edit", "journal bytes vs model"])

p("C11", "Writing a oneof member makes exactly that member present",
  "After writing a member of a oneof through its message (value, field or submessage creation, tag path), exactly that member is reported present and named by the case query, every other member of the group is reported absent, members that would otherwise override it on the wire are removed, and fields outside the group are untouched. Clearing or erasing the group leaves none set; on wire data that carries several members, the last one counts.",
  ["inputs", "histories"], "all schemas with one or several oneof groups (scalar, string and message members, tags interleaved with other fields) x starting encodings incl. several members x write/erase/case sequences",
  "Tests cover a single group with two members; interleaved tags, several groups and submessage members need generation.",
  ["src/message/oneof.c", "src/message/part.c", "src/message/message.c", "src/message/cursor.c"],
  [("clearing other members on put", "src/message/message.c / part.c"), ("last member resolution", "src/message/cursor.c, oneof.c")],
  observe=["oneof case", "has/get of each member", "journal bytes vs model"])

p("C12", "Failed allocations are reported and leave every object consistent",
  "If any allocation request fails during any operation, that operation reports an error or yields an object that reports itself invalid - it never pretends success; nothing leaks, nothing is freed twice and no freed memory is touched. A failed buffer, journal or encoder operation leaves the content as it was; a message afterwards is still well formed with all fields the failing operation did not address unchanged, and further operations (once memory is available again) work normally.",
  ["fault_sequences", "histories"], "all operations x all schemas x every allocation index at which a failure is injected (single failure and failure from then on)",
  "Tests inject failures in a few hand-picked calls; 'every allocation point of every history' is an enumeration over fault positions.",
  ["src/core/buffer.c", "src/core/encoder.c", "src/message/journal.c", "src/message/part.c", "src/message/cursor.c", "src/message/field.c", "src/util/chunk_allocator.c"],
  [("grow before write", "src/core/buffer.c pb_buffer_grow"), ("journal entry allocation", "src/message/journal.c"), ("error propagation", "src/message/part.c pb_part_write")],
  observe=["return codes", "journal bytes", "outstanding blocks", "sanitizer reports"])

p("C13", "Zero-copy buffers are edited in place only and never resized",
  "On a zero-copy buffer reads use the caller's memory without copying or allocating, and writes of the same encoded size change exactly those bytes of the caller's memory in place. Any operation that would change the size is refused with an error and leaves every byte as it was; the caller's memory is never freed and never accessed outside its extent.",
  ["inputs", "histories"], "all schemas x all encodings x same-size, growing and shrinking edits via every handle type",
  "Tests make two or three fixed calls on zero-copy buffers; 'exactly these bytes and nothing else' over arbitrary layouts needs a byte-level oracle.",
  ["src/core/buffer.c", "src/message/buffer.c", "src/message/journal.c", "src/message/part.c"],
  [("zero-copy allocator stub", "src/core/allocator.c"), ("size-change refusal", "src/message/buffer.c, src/message/journal.c")],
  observe=["caller memory byte diff", "allocator call counts", "guard pages"])

p("C14", "Every allocation is owned, bounded, passed to its allocator and released",
  "Objects created with a custom allocator obtain, resize and release memory only through it, with the blocks it returned; destroying all objects of a history returns every block exactly once. The chunk allocator hands out non-overlapping, suitably aligned blocks that keep their contents across resize, serves any request size, and its destruction releases everything it took.",
  ["histories", "inputs"], "all histories of create/edit/destroy over buffers, journals, encoders, messages x all sequences of chunk-allocator allocate/resize/free with arbitrary sizes",
  "Tests check that objects can be created and destroyed; ownership, overlap and leak freedom are properties of whole histories.",
  ["src/core/allocator.c", "src/core/buffer.c", "src/message/journal.c", "src/util/chunk_allocator.c"],
  [("allocator indirection", "include/protobluff/core/allocator.h"), ("chunk list", "src/util/chunk_allocator.c")],
  observe=["tracking allocator ledger", "block contents patterns", "malloc interposition"])

p("C15", "Validator accepts exactly the messages that satisfy their schema",
  "Validation succeeds exactly for messages that are well formed at every level with all required fields present at every level (extensions and recursive types included), and otherwise reports the documented error; it never modifies the message. A well-formed unknown field never makes a message invalid. Messages nested deeper than the limit of 512 levels are reported as invalid.",
  ["inputs"], "all schemas with required fields x all encodings with subsets of required fields missing at any depth, unknown fields, repeated submessages, packed runs, and damaged variants",
  "Tests check one schema and a handful of buffers; the verdict is a predicate over all messages and needs an independent evaluator.",
  ["src/util/validator.c"],
  [("seen-tags bookkeeping and recursion", "src/util/validator.c pb_validator_check")],
  observe=["verdict vs reference evaluator", "buffer bytes"])

p("C16", "Descriptor lookups and iterators agree with the declared schema",
  "Looking a field up by tag or name finds it exactly if it is declared in the message or one of its extensions, and looking an enum value up by number or name finds it exactly if it is declared, negative and aliased numbers included. Iterators over the fields of a descriptor, the values of an enum and the members of a oneof visit each exactly once in declaration order in both directions (an extension is a descriptor of its own, with its own fields).",
  ["inputs", "programs"], "all schemas: any tag set up to 2^29-1, extension chains, enums with sparse, negative, aliased values, groups of any size, all probe tags and numbers",
  "Tests probe one dense descriptor; binary-search style shortcuts misbehave only for particular tag gaps.",
  ["src/core/descriptor.c", "src/util/descriptor.c"],
  [("bounded binary search", "src/core/descriptor.c"), ("iterators", "src/util/descriptor.c")],
  observe=["lookup results", "iteration sequences"])

p("C17", "Invalid and destroyed objects are inert and report errors",
  "Every operation on an object that failed to be created or has gone invalid, and every operation that addresses an undeclared field, returns an error or an empty answer (clearing or erasing what is already gone may report success) without touching memory or modifying any message, and destroying such objects is always safe. The error state of an object is sticky and consistent between its error and validity queries, and operations never turn an error into success silently.",
  ["histories", "inputs"], "all objects (decoder, encoder, buffer, journal, message, field, cursor, validator) created in every invalid way x all operations, undeclared tags included",
  "Tests check each operation on one invalid object; combinations of invalid parents, undeclared fields and later use are histories.",
  ["src/core/buffer.c", "src/core/encoder.c", "src/core/decoder.c", "src/message/message.c", "src/message/field.c", "src/message/cursor.c", "src/message/journal.c"],
  [("invalid object constructors", "include/protobluff/**, src/message/*.h"), ("validity checks at entry", "src/**")],
  observe=["return codes", "journal bytes", "sanitizer reports"])

p("C18", "Generated descriptors describe the .proto file faithfully",
  "For every valid proto2 or proto3 schema (without groups and proto3 optional, and whose names stay distinct as lower-case identifiers with underscores for dots), the generator succeeds and the generated source compiles without warnings; the descriptors it defines list exactly the declared fields in ascending order of tags with their name, tag, type, label, packed flag, nested and enum types, the enum values (in ascending order of their numbers), the oneof groups and their members, the extensions registered with the types they extend, and the default values (strings and bytes byte for byte, floats bit for bit; oneof members carry none, optional enum fields their implicit one). The tag and value constants agree. Generation is deterministic except for the date stamp.",
  ["programs", "inputs"], "all .proto files: any nesting of messages/enums/extensions/oneofs, any tags, defaults with every byte value and special floats, packages, imports, services ignored",
  "The test suite contains no generator test at all; schema space is unbounded.",
  ["src/generator/*.cc", "include/protobluff/descriptor.h"],
  [("printers per construct", "src/generator/{file,message,field,enum,oneof,extension}.cc")],
  observe=["compiled descriptor tables vs protoc's own FileDescriptorSet", "compiler diagnostics"])

p("C19", "Generated accessors behave like the generic message interface",
  "Each generated accessor (get, put, has, erase, create, cursor, the variants for fixed enum values, nested paths, oneof case, extension accessors, encoders, decoders) exists with the declared native type and has the effect and result of the generic operation on the same field, whatever the schema. Messages built through generated code are understood by an independent implementation with the same content, and the reverse. Exactly the functions that belong to something declared deprecated (field, message; enum or enum value for its fixed-value variants) are marked so, and code for the lite runtime needs nothing but the core of the library.",
  ["programs", "inputs", "histories"], "all .proto files x all sequences of generated calls on them",
  "No test compiles generated code; a wrong tag or path in one accessor shows only when that accessor is used with the right schema shape.",
  ["src/generator/*.cc", "include/protobluff/*"],
  [("accessor templates", "src/generator/{field,message,oneof}.cc")],
  observe=["results and journal bytes of generated vs generic calls", "libprotobuf parse"])

p("C20", "Buffers splice exactly and refuse out-of-range requests unchanged",
  "Replacing, inserting or removing any byte range of a growable buffer or journal yields exactly the spliced content, whatever the sizes (data not taken from the buffer itself), and reading a buffer as a stream yields exactly its bytes in order. Any request outside the buffer's extent is refused with an error and changes neither content nor read position.",
  ["inputs", "histories"], "all contents x all (start, end, data) triples incl. inverted and out-of-range ones x all sequences of writes and typed reads/skips",
  "Tests write at a few fixed offsets; splice correctness quantifies over all ranges and histories.",
  ["src/core/buffer.c", "src/core/stream.c", "src/message/buffer.c", "src/message/journal.c"],
  [("pb_buffer_write/grow/clear", "src/core/buffer.c, src/message/buffer.c"), ("stream reads and skips", "src/core/stream.c")],
  observe=["buffer bytes vs model string", "stream offset", "return codes"])

p("C21", "Independent objects may be used from different threads at once",
  "Threads that share only immutable schema descriptors and (read-only) input bytes and otherwise use their own objects never race, and each obtains exactly the result it would obtain alone. The library keeps no hidden shared mutable state.",
  ["schedules", "inputs"], "all interleavings of up to 8 threads decoding, encoding, validating, reading and editing own buffers with shared descriptors",
  "The suite is single-threaded; a static buffer or cached lookup would pass every test.",
  ["src/core/*.c", "src/message/*.c", "src/util/*.c"],
  [("no globals except const tables", "src/**"), ("default allocator", "src/core/allocator.c")],
  observe=["ThreadSanitizer reports", "per-thread results vs sequential reference"])

p("C22", "Error codes name the cause of a failure",
  "Whenever an operation fails, the error code it returns names the cause: ALLOC when memory is denied for a buffer, journal or encoding or for a write to a message, or when a zero-copy buffer would have to change its size; INVALID for invalid objects, undeclared fields, several values for a field that isn't repeated, illegal wire types and the tag zero; VARINT for a varint longer than its type allows or cut off; OFFSET for data ending before a value does, a length beyond the end and a range outside a buffer; ABSENT for reading an absent field without a default and, in validation, for a missing required field; EOM when the input or the elements of a cursor are used up. Every code has its own description.",
  ["inputs", "crash points"], "all inputs with one damage of a known kind at any nesting level, all editing operations with a denied allocation or on a zero-copy buffer, all absent/undeclared/invalid arguments",
  "Tests check a few codes on fixed inputs; which code comes out depends on where in nested or packed data the damage lies and at which of an operation's writes memory runs out.",
  ["src/core/stream.c", "src/core/varint.c", "src/core/decoder.c", "src/core/validator.c", "src/core/encoder.c", "src/message/buffer.c", "src/message/journal.c", "src/message/part.c", "src/message/message.c", "src/message/common.c"],
  [("documented error codes", "include/protobluff/core/common.h, docs/guide/"), ("propagation through parts and submessages", "src/message/{part,message,nested,cursor}.c")],
  observe=["error codes vs the injected cause", "pb_error_string"])

p("C23", "A bytes field can be used as the message it holds",
  "A message created from a field of type bytes and a schema for its content (single, repeated, in a oneof, reached through a path or a cursor, at any depth and within one another) reads that content as the message, and behaves in every respect as a declared submessage would: editing it changes exactly the content of that field, all enclosing length prefixes stay exact, other live handles keep their meaning, the field reads as the serialized message, and the message becomes invalid together with its field.",
  ["inputs", "histories"], "all schemas with messages in bytes fields x all contents x all sequences of edits through any mix of handles",
  "Two tests create such a message and read one field; edits, nesting, staleness and removal are histories no test has.",
  ["src/message/message.c", "src/message/field.c", "src/message/part.c", "src/message/journal.c"],
  [("pb_message_create_from_field", "src/message/message.c"), ("length prefix updates by wire position", "src/message/part.c")],
  observe=["journal bytes vs model", "answers of live and dead handles", "libprotobuf parse"])

p("C24", "Dumps show exactly the denoted bytes",
  "Dumping a buffer, a journal, or a valid message or field prints the start, end and length of the range it denotes in the underlying buffer and every byte of it once and in order, as decimal number and as character (or a dot if it isn't printable), in rows of ten that begin with their offset. That also holds for objects that are behind the latest changes of the journal. Dumping changes neither the content nor the object, and a message or field removed in the meantime is reported as invalid.",
  ["inputs", "histories"], "all contents x all editing histories of the dumped message or field",
  "No test looks at a dump; the range of a stale object depends on the history of edits.",
  ["src/message/buffer.c", "src/message/part.c", "include/protobluff/message/{message,field,journal}.h"],
  [("pb_buffer_dump_range", "src/message/buffer.c"), ("pb_part_dump", "src/message/part.c")],
  observe=["text printed to stderr", "journal bytes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
