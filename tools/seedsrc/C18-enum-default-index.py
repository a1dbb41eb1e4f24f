property = 'C18'
needs = 'an enum field with a default whose number differs from its position in the enum'
breaks = 'the generated default value is the position of the value instead of its number'
edits = [('src/generator/field.cc', '            descriptor_->default_value_enum()->number());', '            descriptor_->default_value_enum()->index());')]
files = {'t.proto': 'syntax = "proto2";\nenum E { P = 7; Q = 1; }\nmessage A { optional E x = 1; }\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = '\n#include "demo.h"\n#include "t.pb.h"\nint main(void) {\n  const void *v = pb_field_descriptor_default(pb_descriptor_field_by_tag(&a_descriptor, 1));\n  CHECK(v && *(const pb_enum_t *)v == 7);\n  return 0;\n}\n'
