property = 'C07'
needs = 'more than 100 values of a repeated field that is erased'
breaks = 'erasing stops after the first 100 values, the values behind stay'
edits = [('src/message/message.c', '        error = pb_cursor_erase(&cursor);\n      } while (!error && pb_cursor_next(&cursor));', '        error = pb_cursor_erase(&cursor);\n      } while (!error && cursor.pos < 100 && pb_cursor_next(&cursor));')]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL }, { 2, "s", STRING, REPEATED } }, 2 } };
int main(void) {
  uint8_t data[600];
  for (int i = 0; i < 600; i += 4)
    memcpy(data + i, (uint8_t []){ 18, 2, 'x', 'y' }, 4);
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  CHECK(!pb_message_erase(&message, 2));
  CHECK(pb_journal_empty(&journal));
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
