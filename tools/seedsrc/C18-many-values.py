property = 'C18'
needs = "an enum of twelve or more values that aren't declared in ascending order"
breaks = 'the generated values are out of order'
edits = [('src/generator/enum.cc', '    sort(sorted.begin(), sorted.end(), EnumValueComparator);', '    if (sorted.size() < 12) sort(sorted.begin(), sorted.end(), EnumValueComparator);')]
files = {'t.proto': 'syntax = "proto2";\nenum E {\n  V0 = 0;\n  V1 = 7;\n  V2 = 14;\n  V3 = 1;\n  V4 = 8;\n  V5 = 15;\n  V6 = 2;\n  V7 = 9;\n  V8 = 16;\n  V9 = 3;\n  V10 = 10;\n  V11 = 17;\n  V12 = 4;\n  V13 = 11;\n  V14 = 18;\n  V15 = 5;\n  V16 = 12;\n  V17 = 19;\n  V18 = 6;\n  V19 = 13;\n}\nmessage A { optional E e = 1; }\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = r'''
#include "demo.h"
#include "t.pb.h"
#include <protobluff/util/descriptor.h>
int main(void) {
  const pb_enum_value_descriptor_t *last = NULL;
  pb_enum_descriptor_iter_t it = pb_enum_descriptor_iter_create(&e_descriptor);
  CHECK(pb_enum_descriptor_iter_begin(&it));
  do {
    const pb_enum_value_descriptor_t *value = pb_enum_descriptor_iter_current(&it);
    CHECK(!last || pb_enum_value_descriptor_number(last) < pb_enum_value_descriptor_number(value));
    last = value;
  } while (pb_enum_descriptor_iter_next(&it));
  return 0;
}
'''
