property = "C11"
needs = "a oneof opened before another of its members is written through a different handle, at a place before the first field of the message"
breaks = "clearing doesn't rewind a oneof that hasn't been used yet, so members added in front after it was opened stay set"
edits = [("src/message/oneof.c",
"""  pb_error_t error = PB_ERROR_NONE;
  if (pb_cursor_rewind(&(oneof->cursor))) {
""",
"""  pb_error_t error = PB_ERROR_NONE;
  if (pb_cursor_valid(&(oneof->cursor)) ||
      pb_cursor_rewind(&(oneof->cursor))) {
""")]
demo = r'''
#include "demo.h"
static pb_oneof_descriptor_t oneof_descriptor;
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, ONEOF, .value = &oneof_descriptor },
    { 2, "b", UINT32, ONEOF, .value = &oneof_descriptor },
    { 3, "c", UINT32, OPTIONAL } }, 3 } };
static pb_oneof_descriptor_t oneof_descriptor =
  { &descriptor, { (const size_t []){ 0, 1 }, 2 } };
int main(void) {
  const uint8_t data[] = { 24, 1 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_oneof_t oneof = pb_oneof_create(&oneof_descriptor, &message);
  uint32_t value = 7;
  CHECK(!pb_message_put(&message, 1, &value));
  CHECK(!pb_oneof_clear(&oneof));
  CHECK(!pb_message_has(&message, 1));
  pb_oneof_destroy(&oneof);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
