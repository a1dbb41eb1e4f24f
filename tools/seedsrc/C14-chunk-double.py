property = "C14"
needs = "a block of the chunk allocator that grows to more than twice its chunk in one step"
breaks = "the chunk is only doubled, so the returned block is smaller than requested and overflows the heap"
edits = [("src/util/chunk_allocator.c",
"""      size_t capacity = base->capacity * (size / base->capacity + 1);

      /* Grow""",
"""      size_t capacity = current->capacity * 2;

      /* Grow""")]
demo = r'''
#include "demo.h"
#include <malloc.h>
#include <protobluff/util/chunk_allocator.h>
int main(void) {
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(16);
  char *p = pb_allocator_allocate(&a, 10);
  memcpy(p, "0123456789", 10);
  p = pb_allocator_resize(&a, p, 5000);
  CHECK(malloc_usable_size(p - 16) >= 5000 + 16);
  CHECK(!memcmp(p, "0123456789", 10));
  pb_chunk_allocator_destroy(&a);
  return 0;
}
'''
