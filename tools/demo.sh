#!/bin/bash
# Run in /repo after the build: exit 0 if the property's instance holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -O1 -g -DNDEBUG -w -I src -I include -I "$d" "$d/demo.c" \
  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" -lpthread || exit 3
timeout 100 "$t/demo"
