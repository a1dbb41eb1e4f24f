property = "C17"
needs = "a oneof that is used after it was destroyed"
breaks = "destroying a oneof leaves it usable: it can still read and clear the message"
edits = [("src/message/oneof.c",
"""  pb_cursor_destroy(&(oneof->cursor));
""",
"""  oneof->descriptor = NULL;
""")]
demo = r'''
#include "demo.h"
static pb_oneof_descriptor_t od;
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, ONEOF, .value = &od },
    { 2, "b", UINT32, ONEOF, .value = &od } }, 2 } };
static pb_oneof_descriptor_t od = { &descriptor, { (const size_t []){ 0, 1 }, 2 } };
int main(void) {
  const uint8_t data[] = { 8, 1 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_oneof_t oneof = pb_oneof_create(&od, &message);
  CHECK(pb_oneof_valid(&oneof));
  pb_oneof_destroy(&oneof);
  CHECK(!pb_oneof_valid(&oneof));
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
