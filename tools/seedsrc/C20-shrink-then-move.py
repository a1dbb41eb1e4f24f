property = "C20"
needs = "a write that shrinks the middle of a buffer whose allocator really gives up (or overwrites) the tail when shrinking"
breaks = "the buffer is shrunk before its tail is moved down, so the tail is read from released memory"
edits = [("src/message/buffer.c",
"""    } else if (buffer->size + delta) {
      if (end < buffer->size)
        memmove(&(buffer->data[end + delta]), &(buffer->data[end]),
          buffer->size - end);
      uint8_t *new_data = pb_allocator_resize(buffer->allocator,
        buffer->data, buffer->size + delta);
      if (new_data)
        buffer->data = new_data;
""",
"""    } else if (buffer->size + delta) {
      uint8_t *new_data = pb_allocator_resize(buffer->allocator,
        buffer->data, buffer->size + delta);
      if (new_data)
        buffer->data = new_data;
      if (end < buffer->size)
        memmove(&(buffer->data[end + delta]), &(buffer->data[end]),
          buffer->size - end);
""")]
demo = r'''
#include "demo.h"
static void *allocate(void *d, size_t n) { size_t *p = malloc(n + 16); *p = n; return (char *)p + 16; }
static void *resize(void *d, void *b, size_t n) {
  char *q = allocate(d, n);
  if (b) {
    size_t *p = (size_t *)((char *)b - 16), old = *p;
    memcpy(q, b, old < n ? old : n);
    memset(b, 0xee, old);
    free(p);
  }
  return q;
}
static void release(void *d, void *b) { free((char *)b - 16); }
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", STRING, OPTIONAL },
    { 2, "b", STRING, OPTIONAL },
  }, 2 } };
int main(void) {
  pb_allocator_t allocator = { { allocate, resize, release }, NULL };
  const uint8_t data[] = { 10, 5, 'a', 'b', 'c', 'd', 'e', 18, 3, 'x', 'y', 'z' };
  pb_journal_t journal = pb_journal_create_with_allocator(&allocator, data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_string_t value = pb_string_init((uint8_t *)"q", 1);
  CHECK(!pb_message_put(&message, 1, &value));
  BYTES(&journal, 10, 1, 'q', 18, 3, 'x', 'y', 'z');
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
