property = 'C13'
needs = 'the end of a zero-copy buffer being cleared'
breaks = "the buffer shrinks, although it doesn't own its storage"
edits = [('src/message/buffer.c', '  ptrdiff_t delta = start - end;\n  if (delta) {\n    if (unlikely_(buffer->allocator == &allocator_zero_copy))\n      return PB_ERROR_ALLOC;', '  ptrdiff_t delta = start - end;\n  if (delta) {\n    if (unlikely_(buffer->allocator == &allocator_zero_copy)) {\n      if (end == buffer->size && start) { buffer->size = start; return PB_ERROR_NONE; }\n      return PB_ERROR_ALLOC; }')]
demo = r'''
#include "demo.h"
int main(void) {
  uint8_t data[] = { 1, 2, 3, 4 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  CHECK(pb_buffer_clear(&buffer, 2, 4) == PB_ERROR_ALLOC);
  CHECK(pb_buffer_size(&buffer) == 4);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
