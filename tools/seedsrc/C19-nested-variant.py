property = 'C19'
needs = "an enum with a value whose number isn't its position, in a message reached through a nested accessor"
breaks = 'the nested accessors for fixed enum values test and write the position instead of the number'
edits = [('src/generator/field.cc', '          enum_variables["value"] = "(const pb_enum_t []){ "\n            + SimpleItoa(value->number()) +\n', '          enum_variables["value"] = "(const pb_enum_t []){ "\n            + SimpleItoa(value->index()) +\n')]
files = {'t.proto': 'syntax = "proto2";\nmessage A {\n  message B { enum E { P = 0; Q = 5; R = 6; } optional E e = 1; }\n  optional B b = 2;\n}\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = '\n#include "demo.h"\n#include "t.pb.h"\nint main(void) {\n  pb_journal_t j = pb_journal_create_empty();\n  pb_message_t m = a_create(&j);\n  CHECK(!a_put_b_e_r(&m));\n  pb_enum_t v = 0;\n  CHECK(!a_get_b_e(&m, &v) && v == 6);\n  CHECK(a_has_b_e_r(&m) && !a_has_b_e_q(&m));\n  a_destroy(&m);\n  pb_journal_destroy(&j);\n  return 0;\n}\n'
