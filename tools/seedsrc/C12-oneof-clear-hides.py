property = "C12"
needs = "a message with two members of one oneof, and an allocation that fails while the first one is erased"
breaks = "the failure to erase one member is overwritten by the success for the next one, so clearing reports success though the member is still there"
edits = [("src/message/oneof.c",
"""        error = pb_cursor_erase(&(oneof->cursor));
    } while (!error && pb_cursor_next""",
"""        error = pb_cursor_erase(&(oneof->cursor));
    } while (pb_cursor_next""")]
demo = r'''
#include "demo.h"
static int fail = -1;
static void *allocate(void *d, size_t n) { return fail-- == 0 ? NULL : malloc(n); }
static void *resize(void *d, void *b, size_t n) { return fail-- == 0 ? NULL : realloc(b, n); }
static void release(void *d, void *b) { free(b); }
static const pb_oneof_descriptor_t group;
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, ONEOF, NULL, &group },
    { 2, "b", UINT32, ONEOF, NULL, &group },
  }, 2 } };
static const pb_oneof_descriptor_t group = { &descriptor };
int main(void) {
  pb_allocator_t allocator = { { allocate, resize, release }, NULL };
  const uint8_t data[] = { 8, 1, 16, 2 };
  for (int f = 0; f < 4; f++) {
    fail = -1;
    pb_journal_t journal = pb_journal_create_with_allocator(&allocator, data, sizeof data);
    pb_message_t message = pb_message_create(&descriptor, &journal);
    fail = f;
    pb_error_t error = pb_message_erase(&message, 1);
    fail = -1;
    CHECK(error || pb_journal_empty(&journal));
    pb_message_destroy(&message);
    pb_journal_destroy(&journal);
  }
  return 0;
}
'''
