property = "C21"
needs = "two threads that look up fields of shared descriptors at the same time"
breaks = "a last-hit cache in the field lookup is shared mutable state without synchronization, so a thread may get the field of another tag or descriptor"
edits = [("src/core/descriptor.c",
"""  assert(descriptor && tag);
  for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
    if (pb_field_descriptor_tag(
        &(descriptor->field.data[--f])) == tag) {
      return &(descriptor->field.data[f]);""",
"""  assert(descriptor && tag);

  /* Fields are often looked up several times in a row */
  static const pb_descriptor_t *last;
  static const pb_field_descriptor_t *hit;
  if (last == descriptor && hit && pb_field_descriptor_tag(hit) == tag)
    return hit;
  for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
    if (pb_field_descriptor_tag(
        &(descriptor->field.data[--f])) == tag) {
      last = descriptor;
      return hit = &(descriptor->field.data[f]);""")]
sh = r'''#!/bin/bash
# Run in /repo after the build: exit 0 if the property's instance holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
clang -std=gnu99 -O1 -g -DNDEBUG -w -fsanitize=thread -I src -I include -I "$d" "$d/demo.c" \
  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" -lpthread || exit 3
timeout 100 "$t/demo"
'''
demo = r'''
#include "demo.h"
#include <pthread.h>
static pb_descriptor_t a = { { (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL }, { 2, "b", UINT32, OPTIONAL } }, 2 } };
static pb_descriptor_t b = { { (const pb_field_descriptor_t []){ { 1, "c", UINT64, OPTIONAL }, { 2, "d", UINT64, OPTIONAL } }, 2 } };
static void *work(void *arg) {
  for (int i = 0; i < 2000; i++) {
    const pb_descriptor_t *d = i & 1 ? &a : &b;
    const pb_field_descriptor_t *f = pb_descriptor_field_by_tag(d, 1 + i / 2 % 2);
    CHECK(f == &d->field.data[i / 2 % 2]);
  }
  return NULL;
}
int main(void) {
  pthread_t t[2];
  for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, NULL);
  for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
  return 0;
}
'''
