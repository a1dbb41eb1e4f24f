property = "C05"
needs = "a message that carries a required field twice on the wire with different values"
breaks = "reads of a required field return its first occurrence instead of the last one"
edits = [("src/message/cursor.c",
"    if (pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED) {\n      pb_cursor_t temp",
"    if (pb_field_descriptor_label(descriptor) == PB_LABEL_OPTIONAL ||\n        pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {\n      pb_cursor_t temp")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, REQUIRED },
    { 2, "b", UINT32, OPTIONAL },
  }, 2 } };
int main(void) {
  const uint8_t data[] = { 8, 1, 16, 7, 8, 2, 16, 9 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  uint32_t value = 0;
  CHECK(!pb_message_get(&message, 2, &value) && value == 9);
  CHECK(!pb_message_get(&message, 1, &value) && value == 2);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
