property = "C07"
needs = "a field erased along a path of tags that occurs more than once"
breaks = "only one of its occurrences is removed, so the field is still there with an older value"
edits = [("src/message/nested.c",
"""    error = pb_message_erase(&submessage, tags[size]);
    pb_message_destroy(&submessage);
""",
"""    pb_cursor_t temp = pb_cursor_create(&submessage, tags[size]);
    error = PB_ERROR_NONE;
    if (pb_cursor_valid(&temp))
      error = pb_cursor_erase(&temp);
    else if (pb_cursor_error(&temp) != PB_ERROR_EOM)
      error = pb_cursor_error(&temp);
    pb_cursor_destroy(&temp);
    pb_message_destroy(&submessage);
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t inner = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL }, { 2, "b", UINT32, OPTIONAL } }, 2 } };
static pb_descriptor_t outer = { {
  (const pb_field_descriptor_t []){ { 1, "m", MESSAGE, OPTIONAL, &inner } }, 1 } };
int main(void) {
  uint8_t data[] = { 10, 6, 8, 1, 16, 5, 8, 2 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&outer, &journal);
  CHECK(!pb_message_nested_erase(&message, (const pb_tag_t []){ 1, 1 }, 2));
  BYTES(&journal, 10, 2, 16, 5);
  CHECK(!pb_message_nested_has(&message, (const pb_tag_t []){ 1, 1 }, 2));
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
