property = "C11"
needs = "a message in which a member of the oneof with a smaller tag follows the member that is written"
breaks = "only members with larger tags are removed, so the smaller one behind stays and overrides the written member"
edits = [("src/message/part.c",
"            if (member && tag != pb_cursor_tag(&temp))",
"            if (member && tag < pb_cursor_tag(&temp))")]
demo = r'''
#include "demo.h"
static const pb_oneof_descriptor_t group;
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, ONEOF, NULL, &group },
    { 2, "b", UINT32, ONEOF, NULL, &group },
  }, 2 } };
static const pb_oneof_descriptor_t group = { &descriptor };
int main(void) {
  const uint8_t data[] = { 16, 2, 8, 1 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  uint32_t value = 5;
  CHECK(!pb_message_put(&message, 2, &value));
  CHECK(pb_message_has(&message, 2));
  CHECK(!pb_message_has(&message, 1));
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
