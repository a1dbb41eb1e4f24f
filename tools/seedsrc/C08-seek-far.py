property = 'C08'
needs = 'an element sought that is more than 200 elements away from the current one'
breaks = 'seeking gives up on the way and reports that there is no such element'
edits = [('src/message/cursor.c', '      while (!result && pb_cursor_next(cursor)) {', '      size_t pos = cursor->pos;\n      while (!result && cursor->pos - pos <= 200 && pb_cursor_next(cursor)) {')]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REPEATED } }, 1 } };
int main(void) {
  uint8_t data[600];
  for (int i = 0; i < 300; i++) { data[2 * i] = 8; data[2 * i + 1] = i / 3; }
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_cursor_t cursor = pb_cursor_create(&message, 1);
  uint32_t value = 98;
  CHECK(pb_cursor_seek(&cursor, &value));
  CHECK(pb_cursor_match(&cursor, &value));
  pb_cursor_destroy(&cursor);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
