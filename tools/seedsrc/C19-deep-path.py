property = 'C19'
needs = 'types nested at least four levels deep with fields of their own behind the innermost one'
breaks = "the accessors of the fields behind it are generated for a path that doesn't exist"
edits = [('src/generator/field.cc', '        temp->GenerateAccessors(printer, trace);\n        trace.pop_back();', '        temp->GenerateAccessors(printer, trace);\n        if (trace.size() < 4) trace.pop_back();')]
files = {'t.proto': 'syntax = "proto2";\nmessage A {\n message B {\n  message C {\n   message D {\n    message E { optional uint32 x = 1; }\n    optional E e = 1;\n    optional uint32 y = 2;\n   }\n   optional D d = 1;\n  }\n  optional C c = 1;\n }\n optional B b = 1;\n}\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = r'''
#include "demo.h"
#include "t.pb.h"
int main(void) {
  pb_journal_t journal = pb_journal_create_empty();
  pb_message_t message = a_create(&journal);
  CHECK(!a_put_b_c_d_e_x(&message, &(uint32_t){ 5 }));
  CHECK(!a_put_b_c_d_y(&message, &(uint32_t){ 6 }));
  BYTES(&journal, 10, 10, 10, 8, 10, 6, 10, 2, 8, 5, 16, 6);
  a_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
