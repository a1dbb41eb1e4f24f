#!/usr/bin/env python3
"""Source of known_findings.json (run: python3 tools/mkfindings.py)."""
import json, os
FIXED = """
C01 39492f8 scanning a varint near the end of a buffer loaded up to 8 bytes past it
C01 c82bd51 unpacking a negative int32/enum varint cut off after 5..9 bytes read past the buffer
C02 2871a80 zig-zag encoding left-shifted negative values (undefined behaviour)
C01 df29001 reading a varint at the very end of a stream read past the buffer
C01 b5b2a09 a field with an illegal wire type (3, 4, 6, 7) called a null function pointer
C08 4793bd9 match/seek compared strings by the shorter size only, so a prefix matched
C10 4bf4cc9 handles were re-aligned by origin only and ended up on wrong bytes after edits through other handles
C11 41c1a4e a oneof member was shadowed by members of another oneof or not shadowed by its own
C06 ecd4064 a write overwrote/inserted at a later field with a smaller tag instead of the last occurrence of its own tag
C06 b378782 appending to a packed field whose last occurrence is unpacked corrupted the message
C06 01ef9e6 creating a field for a present empty string overwrote it with the default
C11 aba869f writing a oneof member inserted at a stale message start after erasing the other members
C08 1e01aaf after erasing through a cursor the next element was skipped or misread
C08 477f6b4 a cursor inside a packed run that was removed read beyond it
C05 1afc73f nested access in debug builds asserted on the descriptor of the wrong message
C06 e363434 writing an empty string or empty submessage aborted in debug builds
C09 40b3d20 a part created inside a submessage whose length prefix grew kept stale offsets
C16 178a630 enum values after negative or aliased numbers were not found by number
C03 b6cc254 decoding a message with very many fields exhausted the stack (alloca in the loop)
C03 76ea09b a packed field whose last value crosses its length was accepted
C01 1978c8e a field truncated at the end of a message was reported as the regular end
C20 b3b8df3 emptying a buffer by a write kept (and later freed again) a released block
C16 110ecd6 *_iter_end reported "no element" for descriptors with exactly one element
C15 fe0e313 the validator's table of seen fields had no room for extension fields (stack overflow) and required extension fields were not checked
C01 ca264b0 the validator recursed without limit on nested messages (stack exhaustion)
C04 e29853a encoding several values hid errors of all but the last one and left partial fields behind
C17 4fffd3f reading, writing, creating or encoding an undeclared field dereferenced a null descriptor; surplus values for a non-repeated field were encoded
C14 43f012e growing a chunk returned the old, smaller block when the allocation failed
C14 bf5e348 sizes near SIZE_MAX overflowed in the chunk allocator and yielded a block that is too small
C04 01d9e6b encoding a destroyed or invalid nested encoder was accepted as an empty submessage
C12 94751e7 writing a oneof member reported success although erasing the other members had failed
C01 ec8fe31 the illegal tag zero in input ran into an assertion (debug) or was accepted as an unknown field
C15 f53ee4f a known field under an illegal or foreign wire type was decoded as if it had its own, so malformed messages were accepted
C06 20143e2 a known field under a foreign wire type was taken for a value, and overwriting it destroyed the message
C17 cc28f7b creating or writing along a tag path ending in an undeclared field created the submessages on the path
C18 866e994 the generator aborted on every input (it asked ordinary fields for their extension scope)
C18 b647e36 default values of oneof members took the place of the oneof descriptor or aborted the generator
C19 aa47edd generated case accessors created oneofs from the descriptor of the message
C18 b259bb7 indexes of oneof members were determined before fields were sorted by tag
C18 2ad0644 default values of strings and bytes were not escaped, those of bytes didn't compile
C18 e84728f default values inf, nan and -0.0 didn't compile or lost their sign
C18 453293b default values of type float lost precision
C18 e0a7daa the default value INT64_MIN compiled with a warning
C18 da83f12 header guards of files with special characters in their path didn't compile
C18 9f71312 default values of nested extensions were left out if there were no others
C18 c54d6f8 extensions were generated in order of pointers, so output was not deterministic
C18 8616078 printing numbers from 2147483648 upwards overflowed a signed integer (undefined behaviour)
C18 f5ea4cd header guards of files whose path starts with a digit didn't compile
C19 e8d5faf path accessors of deprecated enum values were not marked as deprecated
C06 89cddf8 writing an empty value made with pb_string_init_empty aborted in builds with assertions
C22 f891703 creating a field or submessage for which memory is denied (or on a zero-copy buffer) was reported as an invalid object instead of a failed allocation
C01 b2a4812 the validator exhausted the stack on nested messages of a schema with thousands of fields
""".strip().splitlines()
OPS = {"put": "pb_message_put", "put-message": "pb_message_put of a submessage",
       "erase": "pb_message_erase", "clear": "pb_message_clear",
       "create-within": "pb_message_create_within",
       "create-nested": "pb_message_create_nested",
       "nested-put": "pb_message_nested_put", "nested-erase": "pb_message_nested_erase",
       "field-create": "pb_field_create", "field-create-nested": "pb_field_create_nested",
       "cursor-create-nested": "pb_cursor_create_nested",
       "field-put": "pb_field_put", "field-clear": "pb_field_clear",
       "cursor-put": "pb_cursor_put", "cursor-erase": "pb_cursor_erase",
       "cursor-put-message": "pb_cursor_put of a submessage",
       "oneof-clear": "pb_oneof_clear"}
KNOWN = [
    dict(property="C12", status="known", key=f"half-done:{op}",
         what=f"{fn} needs several journal writes (header, value, enclosing length "
              "prefixes, other oneof members); if memory runs out after the first it "
              "reports an error but leaves the writes done so far in the message (the "
              "journal has no rollback). Only contents that the same operation passes "
              "through when nothing fails are covered by this entry")
    for op, fn in OPS.items()
]
out = []
for l in FIXED:
    prop, commit, what = l.split(" ", 2)
    out.append(dict(property=prop, status="fixed", commit=commit, what=what,
                    line=f"fixed: property={prop} {commit} {what}"))
out += KNOWN
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
with open(p, "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
