property = "C13"
needs = "a shorter value written to a zero-copy journal"
breaks = "a zero-copy buffer is shrunk in place instead of refusing the write, so the caller's memory no longer holds the message it was given for"
edits = [("src/message/journal.c",
"""  if (unlikely_(allocator == &allocator_zero_copy))
    return PB_ERROR_ALLOC;
""",
"""  if (unlikely_(allocator == &allocator_zero_copy && delta > 0))
    return PB_ERROR_ALLOC;
  if (unlikely_(allocator == &allocator_zero_copy))
    return PB_ERROR_NONE;
"""),
("src/message/buffer.c",
"""  ptrdiff_t delta = size - (end - start);
  if (delta) {
    if (unlikely_(buffer->allocator == &allocator_zero_copy))
      return PB_ERROR_ALLOC;

    /* Buffer grows""",
"""  ptrdiff_t delta = size - (end - start);
  if (delta < 0 && buffer->allocator == &allocator_zero_copy) {
    memmove(&(buffer->data[end + delta]), &(buffer->data[end]),
      buffer->size - end);
    buffer->size += delta;
  } else if (delta) {
    if (unlikely_(buffer->allocator == &allocator_zero_copy))
      return PB_ERROR_ALLOC;

    /* Buffer grows""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL }, { 2, "b", UINT32, OPTIONAL } }, 2 } };
int main(void) {
  uint8_t data[] = { 8, 0xac, 2, 16, 7 };
  pb_journal_t journal = pb_journal_create_zero_copy(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  uint32_t value = 1;
  CHECK(pb_message_put(&message, 1, &value));
  BYTES(&journal, 8, 0xac, 2, 16, 7);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
