"""Per-property specification of the monitors run by check.py."""
import os
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src")
PROD = {"variant": "prod"}
ASAN = {"variant": "asan"}
DBG = {"variant": "dbg", "scale": 0.5}
PB = {"libs": ["-lprotobuf"], "cxx": ["-DMON_PBREF"]}

HOOK = {"lib": ["-include", os.path.join(SRC, "hook_malloc.h")]}

SESSION_RULE = (
    "one case = one monitored editing session: a random schema (types, labels, packed, "
    "oneofs, extensions, nesting, tags up to 2^29-1) and a random well-formed starting "
    "buffer (unknown fields, repeated occurrences, any order, packed/unpacked mixtures), "
    "then a random sequence of operations through simultaneously live handles. After every "
    "step the journal bytes are compared with an independent reference model and live "
    "handles are queried. a case is non-trivial if it changed the buffer or read "
    "a non-empty message, and distinct by the sequence of (operation, resulting buffer) "
    "pairs compared; distinct_states_compared counts those pairs.")


SESSION_NOTE = (
    "Exploration: every step of tens of thousands of generated sessions is judged by an "
    "independent reference model of the wire format (and, where it applies, by "
    "libprotobuf). Trusts the model in src/model.hh and src/session.hh, the compilers and "
    "sanitizers; says nothing about histories longer or schemas larger than generated.")


def session(name, must, variants=None, pb=True):
    v = variants or [ASAN, DBG, {"variant": "prod", "scale": 0.5}]
    if pb:
        v = [dict(x, **PB) for x in v]
    return {"level": "exploration", "sources": [name + ".cc"], "variants": v,
            "technique": "online model-based monitor over random editing sessions under "
                         "ASan+UBSan, library assertions and the production build",
            "level_note": SESSION_NOTE, "rule": SESSION_RULE, "must_see": must}


PROTO_TYPES = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32",
               "fixed64", "sfixed32", "sfixed64", "bool", "enum", "float", "double",
               "string", "bytes"]

SPECS = {
    "C01": {
        "level": "exploration", "sources": ["c01.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = a random schema and hostile bytes: random, produced by a "
                "grammar for almost-messages (illegal wire types, tag zero, overlong "
                "varints, wrong and huge lengths, cut values), or a well-formed message "
                "with bytes flipped, inserted, removed or cut. They go through decoder, "
                "validator and every reading call on messages, submessages, cursors, "
                "fields, oneofs and tag paths, in memory that ends at an inaccessible "
                "page (or an exactly sized heap block), and through random sequences of "
                "edits by several live handles on a ledger that moves blocks. Strings "
                "must lie inside the bytes, codes be documented, cursors end, blocks be "
                "released; a case has 30 s of CPU. Distinct by the bytes processed.",
        "technique": "generative and mutational fuzzing of all entry points under "
                     "ASan+UBSan, guard pages, library assertions, an allocation ledger, "
                     "value-extent monitors and a CPU watchdog",
        "level_note": "Exploration of generated inputs up to about 300 KB. Assertions of "
                      "the library count as crashes in the dbg variant.",
        "must_see": ["inputs", "strings", "decode-rejected", "decode-accepted",
                     "validator-rejected", "validator-accepted", "cursor-stops", "calls",
                     "edit-calls", "edits-of-hostile-bytes", "put-done", "put-failed",
                     "bytes-messages", "levels", "large:tower", "large:lying tower",
                     "large:many small fields", "large:packed runs"],
    },
    "C02": {
        "level": "exploration",
        "sources": ["c02.cc"],
        "variants": [ASAN, {"variant": "prod", "scale": 1.0}],
        "rule": "one case = a batch of values of one scalar type under one tag: all "
                "2^k-1/2^k/2^k+1 boundaries and complements enumerated for each type, "
                "the rest drawn from boundary-biased generators; every value goes "
                "through encoder, decoder (exact-size block, followed by more data, "
                "non-minimal, every truncation), message put/get/overwrite and a packed "
                "run. a case is distinct by the values it compared; "
                "distinct_states_compared = distinct (type, encoded bytes) compared "
                "with the independent reference codec.",
        "technique": "differential monitor against an independent scalar codec, boundaries "
                     "enumerated, under ASan+UBSan and the production build",
        "level_note": "Exploration: all varint-length and sign boundaries of each type are "
                      "enumerated, other values sampled. Trusts the reference codec in "
                      "src/schema.hh and a little-endian host.",
        "must_see": ["values", "padded", "truncations", "packed-runs", "overlong"],
    },
    "C03": {
        "level": "exploration", "sources": ["c03.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = a random schema and a message generated from a model tree "
                "(unknown fields, packed/unpacked mixtures, empty runs, repeated "
                "occurrences, padded varints, nesting, extensions). The expected "
                "handler calls are derived from the tree, not from the bytes. Decoded "
                "in full, cut at every byte, with damage inserted at any level and "
                "with handlers failing at every event; the buffer ends at an "
                "inaccessible page or is an exactly sized heap block. a case is "
                "non-trivial if at least one decode was compared with the expected "
                "calls, and distinct by the sequence of compared buffers.",
        "technique": "online monitor of handler calls against the event sequence of a "
                     "generated model tree, fault injection (truncation, damage, "
                     "handler errors), under ASan+UBSan, assertions and guard pages",
        "level_note": "Exploration: generated messages only; every truncation point of "
                      "each generated message is enumerated. Trusts src/model.hh.",
        "must_see": ["handler-calls", "truncations", "handler-stops", "packed-cuts",
                     "large-messages", "damage:illegal wire type",
                     "damage:overlong unknown varint", "damage:damaged known field"],
    },
    "C04": {
        "level": "exploration", "sources": ["c04.cc"],
        "variants": [dict(ASAN, **PB), dict(DBG, **PB), dict(PROD, **PB)],
        "rule": "one case = a random schema and a random sequence of encode calls (1..n "
                "values, packed, nested encoders to depth 4, extensions) with calls "
                "that must be rejected and denied allocations interleaved. After every "
                "call the whole output is compared with an independent encoder; at the "
                "end it is decoded and, for a quarter of the cases, parsed by "
                "libprotobuf. A case is distinct by the sequence of outputs compared.",
        "technique": "online monitor of the encoder's buffer after every call against "
                     "an independent encoder and libprotobuf, with injected allocation "
                     "failures, under ASan+UBSan and assertions",
        "level_note": "Exploration: generated schemas and call sequences. Trusts "
                      "src/model.hh, src/schema.hh and libprotobuf.",
        "must_see": ["calls", "packed-calls", "nested-calls", "fault-calls",
                     "denied-allocations", "rejected:undeclared field",
                     "rejected:several values for a non-repeated field",
                     "rejected:invalid nested encoder", "length-cases",
                     "lengths-of-2MiB",
                     "reference-messages"],
    },
    "C05": session("c05", ["towers", "field-reads", "cursor-sweeps", "full-sweeps", "oneof-cases",
                           "op:nested", "op:cursor-next", "op:cursor-seek",
                           "reference-messages"]),
    "C06": session("c06", ["towers", "op:put", "op:put-sub", "op:field-put", "op:field-create",
                           "op:nested", "byte-comparisons", "edits",
                           "reference-messages", "wide-schemas", "boundary:2MiB"]),
    "C07": session("c07", ["towers", "op:erase", "op:message-clear", "op:field-clear",
                           "op:oneof-clear", "byte-comparisons", "dead-handle-checks"]),
    "C08": session("c08", ["towers", "op:cursor-create", "op:cursor-next", "op:cursor-put",
                           "op:cursor-rewind", "op:cursor-seek", "op:cursor-match",
                           "full-sweeps", "cursor-sweeps"], pb=False),
    "C09": session("c09", ["towers", "op:nested", "op:within", "op:put", "op:put-sub",
                           "byte-comparisons", "reference-messages", "boundary:2MiB"]),
    "C10": session("c10", ["towers", "live-handle-checks", "dead-handle-checks",
                           "op:field-from-cursor", "op:message-from-cursor", "edits",
                           "woken-after-256-edits", "wide-schemas",
                           "histories-of-70000-edits"],
                   pb=False),
    "C11": session("c11", ["oneof-cases", "op:oneof-clear", "op:put", "op:put-sub",
                           "op:within", "reference-messages", "wide-oneofs"]),
    "C12": {
        "level": "exploration", "sources": ["c12.cc"],
        "variants": [ASAN, {"variant": "dbg", "cxx": ["-DMON_ASSERTS"], "scale": 0.5}, PROD],
        "rule": "one case = one editing operation on a handle of a random session, "
                "replayed once for every allocation request it makes (all of the first "
                "8, then up to 24 of them) with that request denied, alone or with "
                "all later ones, on a ledger that moves blocks at every resize. "
                "Compared: the journal, the answers of all other live handles, "
                "retries, further model-checked editing, and the ledger. Further cases do "
                "the same with one call of an encoder after 0 to 3 others and one splice "
                "of a buffer or journal (content, version, retry). Distinct by "
                "the sequence of (operation, denied request, resulting bytes).",
        "technique": "systematic fault injection at every allocation request of random "
                     "editing sessions, judged by replays without the fault, the "
                     "reference model and an allocation ledger, under ASan+UBSan and "
                     "assertions",
        "level_note": "Exploration of random operations; the requests of each are "
                      "enumerated. Half-done edits (KNOWN-FINDING) are told from other "
                      "corruption by comparison with the content the same operation "
                      "has at that request when nothing fails.",
        "must_see": ["operations", "faults", "clean-failures", "retries",
                     "continued-sessions", "tolerated-faults", "creations",
                     "encoder-faults", "splice-faults"],
    },
    "C13": {
        "level": "exploration", "sources": ["c13.cc"],
        "variants": [dict(ASAN, **HOOK), dict(DBG, **HOOK), dict(PROD, **HOOK)],
        "rule": "one case = a session on a zero-copy journal over memory that ends at an "
                "inaccessible page (or an exactly sized heap block): reads and cursors "
                "checked against the reference model, interleaved with every editing "
                "operation. An edit that keeps the encoded size must land in the "
                "caller's memory exactly, any other must be refused and change nothing. "
                "Every call of the library to malloc/realloc/free is a violation. "
                "Distinct by the sequence of (operation, resulting bytes).",
        "technique": "online model-based monitor on zero-copy journals with guard pages "
                     "and a trap on every allocator call, under ASan+UBSan and assertions",
        "level_note": SESSION_NOTE,
        "must_see": ["in-place", "refused", "no-ops", "field-reads", "cursor-sweeps",
                     "in-place:put", "in-place:field-put", "in-place:cursor-put",
                     "in-place:put-message", "refused:put", "refused:erase",
                     "refused:clear", "refused:cursor-erase", "refused:oneof-clear",
                     "buffer-refusals", "decoded-strings"],
    },
    "C14": {
        "level": "exploration", "sources": ["c14.cc"],
        "variants": [dict(ASAN, **HOOK), dict(DBG, **HOOK), dict(PROD, **HOOK)],
        "rule": "one case = a random history of allocate/resize/free on a chunk "
                "allocator, or an editing session / encoder history whose objects use a "
                "custom, the default or a chunk allocator. The library is compiled "
                "with malloc/realloc/free routed to a ledger that knows every block: "
                "foreign or double frees, requests past the allocator, changed "
                "contents, overlap, misalignment and blocks left over after "
                "destruction are violations. Distinct by the sequence of (block sizes) "
                "respectively of journal contents.",
        "technique": "allocation ledger behind every allocator interface and behind the "
                     "library's malloc, with injected failures, under ASan+UBSan and "
                     "assertions",
        "level_note": "Exploration of random histories. The hook renames malloc, calloc, "
                      "realloc and free when compiling the library.",
        "must_see": ["chunk-allocations", "chunk-resizes", "chunk-frees",
                     "huge-requests", "failed-creations", "denied-allocations",
                     "custom-histories", "default-histories", "chunk-histories",
                     "bulk-releases", "giant-blocks"],
    },
    "C15": {
        "level": "exploration", "sources": ["c15.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = a random schema rich in required fields (extensions and "
                "recursive types included) and a message generated from a model tree; "
                "validated whole, with required fields removed at any depth, with "
                "unknown fields added at all levels, cut at every byte, with damage "
                "inserted at any level, as chains around the depth limit, and with "
                "schemas of up to 20,000 fields nested up to 512 levels. The "
                "verdict is computed from the tree. Distinct by the sequence of "
                "(message, expected verdict).",
        "technique": "differential monitor of the verdict against an independent "
                     "evaluator on the generating tree, with fault injection into the "
                     "bytes, under ASan+UBSan, assertions and guard pages",
        "level_note": "Exploration of generated messages; every prefix of those up to "
                      "400 bytes. Trusts src/model.hh and the evaluator. Every "
                      "occurrence of a submessage must be complete (no merging).",
        "must_see": ["accepted", "incomplete", "malformed", "dropped-nested",
                     "dropped-root", "with-unknown", "prefixes", "deep", "too-deep",
                     "damage:cut submessage", "damage:cut packed run",
                     "damage:illegal wire type", "damage:tag zero",
                     "wide", "wide-deep", "wide-incomplete"],
    },
    "C16": {
        "level": "exploration", "sources": ["c16.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = a random descriptor (tag sets dense, gapped, shifted, sparse, "
                "at the top; up to 4 chained extensions; a oneof group) or a random enum "
                "(negative, extreme, aliased numbers). Every declared tag, number and "
                "name and their neighbours, all tags up to 23 and random ones are "
                "looked up; iterators are walked forward, backward and at random. "
                "Descriptor arrays are exactly sized heap blocks. Descriptors and enums "
                "of up to 70000 entries are walked whole and probed at samples. "
                "Distinct by the sequence of (declared set, probe).",
        "technique": "differential monitor of lookups and iterators against the declared "
                     "list, under ASan+UBSan and assertions",
        "level_note": "Exploration of random schemas; trusts the list they are made from.",
        "must_see": ["tag-hits", "tag-misses", "name-hits", "name-misses", "number-hits",
                     "number-misses", "iterator-stops", "descriptors", "enums", "groups",
                     "empty-groups", "more-than-65535-entries"],
    },
    "C17": {
        "level": "exploration", "sources": ["c17.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = either a buffer, journal or encoder that could not be created "
                "(denied allocation) or was destroyed, or an editing session in which "
                "messages, fields, cursors and oneofs are made invalid in every way "
                "(undeclared tags and paths, invalid parents, invalid cursors and fields, "
                "destruction, removal of the element through other handles, cursors past "
                "the end). Every operation is then tried on them and on undeclared fields "
                "of valid messages: it must answer with an error or nothing, leave the "
                "message bytes, the value passed and the error state alone. Distinct by "
                "the sequence of (object, way, message bytes).",
        "technique": "online monitor of results, error states and message bytes while "
                     "every operation is applied to invalid objects, under ASan+UBSan and "
                     "assertions, with an allocation ledger",
        "level_note": SESSION_NOTE,
        "must_see": ["core-objects", "undeclared-fields", "undeclared-paths",
                     "removed-objects", "ended-cursors", "invalid-values", "stale-values",
                     "message:within undeclared", "message:undeclared path",
                     "message:within invalid", "message:from invalid cursor",
                     "message:from invalid field", "message:destroyed",
                     "field:undeclared", "field:undeclared path", "cursor:undeclared",
                     "cursor:destroyed", "oneof:on invalid message", "oneof:destroyed"],
    },
    "C20": {
        "level": "exploration", "sources": ["c20.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = a random sequence of splices (write/clear/grow) on one buffer "
                "or journal, or of typed reads/skips/advances on one stream, including "
                "out-of-range and inverted requests and denied allocations; contents, "
                "positions and results are compared with a string model after every "
                "step. All (start, end, size) triples on buffers up to 8 bytes are "
                "enumerated. Distinct by the sequence of contents compared.",
        "technique": "online monitor of buffer contents and stream positions against a "
                     "string model, with fault injection, under ASan+UBSan, assertions "
                     "and guard pages",
        "level_note": "Exploration; small buffers are exhaustive in (start, end, size). "
                      "Inverted ranges are asserted preconditions of the journal (not "
                      "of the buffer) and tried on buffers only.",
        "must_see": ["op:write", "op:clear", "op:grow", "op:out-of-range write",
                     "op:out-of-range clear", "journal:write", "journal:clear",
                     "denied-requests", "reads", "failed-reads", "skips",
                     "failed-skips", "advances", "exhaustive-triples",
                     "giant-splices"],
    },
    "C21": {
        "level": "exploration", "sources": ["c21.cc"],
        "variants": [{"variant": "tsan", "shards": 4}, dict(PROD, shards=4, scale=2.0),
                     dict(ASAN, shards=4, scale=0.5)],
        "rule": "one case = a fresh process in which 2 to 8 threads, released together, "
                "each perform a random sequence of operations (decode, validate, read, "
                "edit with the default, a chunk or an own allocator, encode, look up) on "
                "objects of their own, sharing descriptors and bytes in write-protected "
                "memory, with yields and delays injected inside operations through "
                "allocators and decode handlers. ThreadSanitizer watches all accesses; "
                "each operation's result and journal are compared with those of the same "
                "work done alone afterwards. Distinct by the observed order of beginnings "
                "and ends of operations across threads.",
        "technique": "ThreadSanitizer and a per-thread differential monitor (concurrent "
                     "versus alone) over stress schedules with injected delays",
        "level_note": "Exploration: ThreadSanitizer reports a race when both accesses "
                      "execute without ordering, even if they did not collide in time; "
                      "code the operations do not reach is not judged.",
        "must_see": ["results-compared", "overlapped-operations"] +
                    ["op:" + x for x in ("decode", "validate", "read", "edit", "encode",
                                         "lookup", "nested", "cursor", "names", "oneof")],
    },
    "C22": {
        "level": "exploration", "sources": ["c22.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = messages with one damage of a known kind at any level (decoder "
                "and validator), packed runs with one, an editing operation of a random "
                "session with one denied allocation or on a zero-copy journal, reads and "
                "writes of absent, undeclared and invalid things, or a message without a "
                "required field; the code returned must be the documented one. Distinct "
                "by the bytes and the operation.",
        "technique": "online monitor of error codes against the known cause of injected "
                     "faults, under ASan+UBSan and assertions",
        "level_note": "Exploration of generated messages and sessions. A varint cut off by "
                      "the end of a packed run may count as either of the two codes.",
        "must_see": ["code:" + x for x in ("ALLOC", "INVALID", "VARINT", "OFFSET", "ABSENT", "EOM")] +
                    ["damage:" + x for x in ("illegal wire type", "tag zero", "overlong tag",
                     "cut tag", "length past the end", "overlong length", "overlong varint",
                     "cut value", "cut varint", "cut length", "packed value past its run",
                     "packed value past the end", "packed run past the end",
                     "overlong packed varint")] +
                    ["denied-writes", "denied-encodes", "denied-runs", "invalid-encoders", "zero-copy-refusals", "absent",
                     "absent-paths", "ends", "surplus", "missing-required", "descriptions"],
    },
    "C23": session("c23", ["messages-on-bytes", "op:bytes-field", "op:message-from-field",
                           "op:within", "op:nested", "op:put-sub",
                           "op:message-from-cursor", "op:message-clear", "dead-handle-checks",
                           "live-handle-checks", "byte-comparisons", "reference-messages"]),
    "C24": {
        "level": "exploration", "sources": ["c24.cc"],
        "variants": [ASAN, DBG, PROD],
        "rule": "one case = random bytes in a buffer or journal, or "
                " a random editing session in which live, stale and removed "
                "messages and fields are dumped after every step; the text is parsed and "
                "compared with the bytes and offsets of the reference model. Distinct by "
                "the text printed.",
        "technique": "online monitor of the dumped text against a model of the message, "
                     "under ASan+UBSan and assertions",
        "level_note": "Exploration of generated buffers and sessions.",
        "must_see": ["dumps-compared", "dead-dumps", "bytes-compared"],
    },
    "C18": {
        "level": "exploration", "module": "gen",
        "rule": "one case = a random set of .proto files (1 to 3 files, packages, imports, "
                "nesting, all types and labels, oneofs, maps, extensions, special defaults, "
                "optimize_for), and the files of the standard distribution. The generator "
                "runs twice, under ASan+UBSan and plain; both outputs must agree. What it "
                "writes is compiled with gcc and clang at -Wall -Werror and linked, and "
                "every descriptor is compared with protoc's own descriptor set. Distinct "
                "by the set of (tag, type, label, options, default) of a message.",
        "technique": "generator under ASan+UBSan on random schemas; compiled descriptors "
                     "compared online with libprotobuf's view of the same schema",
        "level_note": "Exploration of schema space by generation. Groups and proto3 "
                      "optional aren't supported by protobluff; names are chosen such that "
                      "no two mangled identifiers collide.",
        "must_see": ["files", "messages", "empty-messages", "nested-messages", "enums",
                     "enum-aliases", "oneofs", "oneof-members", "packed-fields",
                     "extensions", "nested-extensions", "extensions-across-files",
                     "default:implicit", "syntax:proto2", "syntax:proto3",
                     "tag-constants", "value-constants"] +
                    ["type:" + x for x in PROTO_TYPES + ["message"]] +
                    ["default:" + x for x in PROTO_TYPES],
    },
    "C19": {
        "level": "exploration", "module": "gen",
        "rule": "one case = a random set of .proto files; its generated code is compiled "
                "together with typed wrappers around every accessor, encoder and decoder "
                "that has to exist (a missing or differently typed one is a violation). "
                "Random sequences of generated calls on one journal and of the generic "
                "operations with the declared tag, path and type on a twin are compared "
                "by result, value and bytes after every call, and with libprotobuf's view "
                "of the bytes at the end; random messages go through generated encoders "
                "and decoders, and libprotobuf on the other side. Deprecation warnings for a "
                "use of every function are compared with the schema, code for the lite "
                "runtime is linked to the core alone. Distinct by (operation, "
                "type, label, depth, kind of result).",
        "technique": "online differential monitor: generated functions against generic "
                     "operations and libprotobuf, under ASan+UBSan and assertions",
        "level_note": "Exploration of schemas and call sequences by generation; every "
                      "accessor of every generated schema compiles and is called with "
                      "some probability, encoders and decoders all run.",
        "must_see": ["op:" + x for x in ("has", "get", "put", "erase", "has-value", "put-value",
                                         "create", "cursor", "case", "encode",
                                         "encode-repeated", "encode-value", "decode")] +
                    ["nested-path:2", "nested-path:3", "extension-accessors", "values-read",
                     "oneof-member-accessors", "on-submessages", "values-compared",
                     "presence-compared", "cases-compared", "messages-encoded",
                     "messages-decoded", "lite-messages", "messages-destroyed",
                     "deprecated-marks", "lite-links"],
    },
}
