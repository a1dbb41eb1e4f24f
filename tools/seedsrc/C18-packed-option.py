property = 'C18'
needs = "a proto3 file with a repeated scalar field that doesn't state the packed option (packed is the default there)"
breaks = 'the generated descriptor lacks the packed flag'
edits = [('src/generator/field.cc', '    if (descriptor_->is_packed())\n', '    if (descriptor_->options().packed())\n')]
files = {'t.proto': 'syntax = "proto3";\nmessage A { repeated int32 x = 1; repeated int32 y = 2 [packed = false]; }\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = '\n#include "demo.h"\n#include "t.pb.h"\nint main(void) {\n  CHECK(pb_field_descriptor_packed(pb_descriptor_field_by_tag(&a_descriptor, 1)));\n  CHECK(!pb_field_descriptor_packed(pb_descriptor_field_by_tag(&a_descriptor, 2)));\n  return 0;\n}\n'
