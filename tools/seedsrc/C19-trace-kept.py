property = 'C19'
needs = 'a field declared (by tag) after a nested message field, in a message that is itself reached through a nested accessor'
breaks = 'its nested accessor keeps the path of the message before: it is named after and addresses another field'
edits = [('src/generator/field.cc', '        temp->GenerateAccessors(printer, trace);\n        trace.pop_back();\n', '        temp->GenerateAccessors(printer, trace);\n')]
files = {'t.proto': 'syntax = "proto2";\nmessage A {\n  message B {\n    message C { optional uint32 x = 1; }\n    optional C c = 3;\n    optional uint32 y = 5;\n  }\n  optional B b = 4;\n}\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = '\n#include "demo.h"\n#include "t.pb.h"\nint main(void) {\n  pb_journal_t j = pb_journal_create_empty();\n  pb_message_t m = a_create(&j);\n  uint32_t v = 9;\n  CHECK(!a_put_b_c_x(&m, &v));\n  CHECK(!a_put_b_y(&m, &v));\n  CHECK(pb_message_nested_has(&m, (const pb_tag_t []){ 4, 5 }, 2));\n  a_destroy(&m);\n  pb_journal_destroy(&j);\n  return 0;\n}\n'
