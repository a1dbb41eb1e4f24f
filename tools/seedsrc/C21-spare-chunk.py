property = "C21"
needs = "two threads with chunk allocators of their own, one releasing a block while the other allocates one of the same capacity"
breaks = "a released chunk is kept in a static variable for the next allocation of any chunk allocator, without synchronization"
edits = [("src/util/chunk_allocator.c",
"""  /* Link predecessor and successor and free current chunk */
  head->next = current->next;
  free(current);
""",
"""  /* Link predecessor and successor */
  head->next = current->next;

  /* Keep the chunk for the next allocation and free the one kept before */
  pb_chunk_allocator_t *prev = spare;
  spare = current;
  free(prev);
"""),
("src/util/chunk_allocator.c",
"""  pb_chunk_allocator_t *chunk = malloc(
    sizeof(pb_chunk_allocator_t) + capacity);
  if (chunk) {
    *chunk""",
"""  pb_chunk_allocator_t *chunk;
  if (spare && spare->capacity == capacity) {
    chunk = spare;
    spare = NULL;
  } else {
    chunk = malloc(sizeof(pb_chunk_allocator_t) + capacity);
  }
  if (chunk) {
    *chunk"""),
("src/util/chunk_allocator.c",
"""/* ----------------------------------------------------------------------------
 * Allocator callbacks
""",
"""/* ----------------------------------------------------------------------------
 * Variables
 * ------------------------------------------------------------------------- */

/*! Most recently freed chunk */
static pb_chunk_allocator_t *spare;

/* ----------------------------------------------------------------------------
 * Allocator callbacks
""")]
sh = r'''#!/bin/bash
# Run in /repo after the build: exit 0 if the property's instance holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
clang -std=gnu99 -O1 -g -DNDEBUG -w -fsanitize=thread -I src -I include -I "$d" "$d/demo.c" \
  src/core/*.c src/message/*.c src/util/*.c -o "$t/demo" -lpthread || exit 3
timeout 100 "$t/demo"
'''
demo = r'''
#include "demo.h"
#include <pthread.h>
#include <protobluff/util/chunk_allocator.h>
static void *work(void *arg) {
  for (int i = 0; i < 500; i++) {
    pb_allocator_t a = pb_chunk_allocator_create();
    pb_buffer_t b = pb_buffer_create_with_allocator(&a, (const uint8_t *)"abc", 3);
    CHECK(pb_buffer_valid(&b) && !memcmp(pb_buffer_data(&b), "abc", 3));
    pb_buffer_destroy(&b);
    pb_chunk_allocator_destroy(&a);
  }
  return NULL;
}
int main(void) {
  pthread_t t[2];
  for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, NULL);
  for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
  return 0;
}
'''
