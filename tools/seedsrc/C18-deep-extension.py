property = 'C18'
needs = 'an extension declared within a message that is nested in another one'
breaks = 'the extension is neither described nor registered with the message it extends'
edits = [('src/generator/message.cc', '    /* Retrieve extensions from nested messages */\n    for (size_t n = 0; n < descriptor_->nested_type_count(); n++) {\n      vector<const Extension *> nested = nested_[n]->GetExtensions();\n      extensions.insert(extensions.end(), nested.begin(), nested.end());\n    }\n', '    /* Retrieve extensions from nested messages */\n    for (size_t n = 0; n < descriptor_->nested_type_count(); n++) {\n      const vector<Extension *> &nested = nested_[n]->extensions_;\n      extensions.insert(extensions.end(), nested.begin(), nested.end());\n    }\n')]
files = {'t.proto': 'syntax = "proto2";\nmessage A { extensions 100 to 200; }\nmessage B {\n  message C {\n    message D { extend A { optional int32 deep = 102; } }\n    extend A { optional int32 less = 101; }\n  }\n  extend A { optional int32 flat = 100; }\n}\n'}
sh = '#!/bin/bash\n# Generates code for t.proto with the built plugin, compiles and runs demo.c.\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 3\ntrap \'rm -rf "$t"\' EXIT\nprotoc -I"$here" --plugin=protoc-gen-protobluff="$PWD/src/generator/protoc-gen-protobluff" \\\n  --protobluff_out="$t" t.proto || exit 1\ngcc -std=gnu99 -O1 -DNDEBUG -w -I include -I src -I "$t" -I "$here" "$here/demo.c" "$t/t.pb.c" \\\n  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" || exit 1\ntimeout 60 "$t/demo"\n'
demo = '\n#include "demo.h"\n#include "t.pb.h"\nint main(void) {\n  CHECK(pb_descriptor_field_by_tag(&a_descriptor, 100));\n  CHECK(pb_descriptor_field_by_tag(&a_descriptor, 101));\n  CHECK(pb_descriptor_field_by_tag(&a_descriptor, 102));\n  return 0;\n}\n'
