property = 'C18'
needs = 'more than 32 extensions declared in one message type'
breaks = 'the ones behind the 32nd are missing from the generated descriptor'
edits = [('src/generator/message.cc', '        if (descriptor_->extension(e)->containing_type() == *it)\n', '        if (descriptor_->extension(e)->containing_type() == *it && (e == 0 || descriptor_->extension(e) != descriptor_->extension(e-1)) && e < 32)\n')]
files = {'t.proto': 'syntax = "proto2";\nmessage A { optional int32 x = 1; extensions 1000 to 2000; }\nmessage B { extend A {\n  optional uint32 e0 = 1000;\n  optional uint32 e1 = 1001;\n  optional uint32 e2 = 1002;\n  optional uint32 e3 = 1003;\n  optional uint32 e4 = 1004;\n  optional uint32 e5 = 1005;\n  optional uint32 e6 = 1006;\n  optional uint32 e7 = 1007;\n  optional uint32 e8 = 1008;\n  optional uint32 e9 = 1009;\n  optional uint32 e10 = 1010;\n  optional uint32 e11 = 1011;\n  optional uint32 e12 = 1012;\n  optional uint32 e13 = 1013;\n  optional uint32 e14 = 1014;\n  optional uint32 e15 = 1015;\n  optional uint32 e16 = 1016;\n  optional uint32 e17 = 1017;\n  optional uint32 e18 = 1018;\n  optional uint32 e19 = 1019;\n  optional uint32 e20 = 1020;\n  optional uint32 e21 = 1021;\n  optional uint32 e22 = 1022;\n  optional uint32 e23 = 1023;\n  optional uint32 e24 = 1024;\n  optional uint32 e25 = 1025;\n  optional uint32 e26 = 1026;\n  optional uint32 e27 = 1027;\n  optional uint32 e28 = 1028;\n  optional uint32 e29 = 1029;\n  optional uint32 e30 = 1030;\n  optional uint32 e31 = 1031;\n  optional uint32 e32 = 1032;\n  optional uint32 e33 = 1033;\n  optional uint32 e34 = 1034;\n  optional uint32 e35 = 1035;\n  optional uint32 e36 = 1036;\n  optional uint32 e37 = 1037;\n  optional uint32 e38 = 1038;\n  optional uint32 e39 = 1039;\n} }\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = r'''
#include "demo.h"
#include "t.pb.h"
int main(void) {
  CHECK(pb_descriptor_field_by_tag(&a_descriptor, 1001));
  CHECK(pb_descriptor_field_by_tag(&a_descriptor, 1039));
  return 0;
}
'''
