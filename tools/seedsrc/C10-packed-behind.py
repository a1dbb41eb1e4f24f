property = "C10"
needs = "a cursor inside a packed run, while another handle inserts or removes bytes before it"
breaks = "a cursor that continues within a packed run isn't aligned with the journal, so it reads bytes next to its elements"
edits = [("src/message/cursor.c",
"""    pb_cursor_align(cursor);
    while (!cursor->error""",
"""    if (!cursor->current.packed.end)
      pb_cursor_align(cursor);
    while (!cursor->error""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, OPTIONAL },
    { 2, "b", UINT32, REPEATED, NULL, NULL, PACKED } }, 2 } };
int main(void) {
  const uint8_t data[] = { 8, 1, 18, 4, 5, 172, 2, 7 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_cursor_t cursor = pb_cursor_create(&message, 2);
  uint32_t value = 100000;
  CHECK(!pb_message_put(&message, 1, &value));
  CHECK(pb_cursor_next(&cursor));
  CHECK(!pb_cursor_get(&cursor, &value));
  CHECK(value == 300);
  CHECK(pb_cursor_next(&cursor));
  CHECK(!pb_cursor_get(&cursor, &value));
  CHECK(value == 7);
  pb_cursor_destroy(&cursor);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
