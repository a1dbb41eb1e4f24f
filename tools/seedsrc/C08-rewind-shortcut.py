property = "C08"
needs = "a cursor still at its first element that is rewound after another element was inserted before it or its own was removed"
breaks = "rewind takes a cursor at position zero as rewound already, so it skips new first elements and keeps standing on removed ones"
edits = [("src/message/cursor.c",
"""  assert(cursor);
  pb_cursor_t temp = pb_cursor_create_unsafe(
    &(cursor->message), cursor->tag);
  pb_cursor_destroy(cursor);
  *cursor = pb_cursor_copy(&temp);
  return pb_cursor_valid(cursor);
""",
"""  assert(cursor);
  if (!pb_cursor_valid(cursor) || cursor->pos) {
    pb_cursor_t temp = pb_cursor_create_unsafe(
      &(cursor->message), cursor->tag);
    pb_cursor_destroy(cursor);
    *cursor = pb_cursor_copy(&temp);
  }
  return pb_cursor_valid(cursor);
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REPEATED } }, 1 } };
int main(void) {
  const uint8_t data[] = { 8, 1, 8, 2 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_cursor_t cursor = pb_cursor_create(&message, 1);
  CHECK(!pb_cursor_erase(&cursor));
  CHECK(pb_cursor_rewind(&cursor));
  uint32_t value = 0;
  CHECK(!pb_cursor_get(&cursor, &value));
  CHECK(value == 2);
  pb_cursor_destroy(&cursor);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
