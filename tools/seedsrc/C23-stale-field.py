property = "C23"
needs = "a message taken from a bytes field after another edit moved the field"
breaks = "the message starts at the place where the field was when it was last used"
edits = [("src/message/message.c",
"""  if (pb_field_valid(field) && !pb_field_align(field)) {
    assert(pb_field_descriptor_type(""",
"""  if (pb_field_valid(field)) {
    assert(pb_field_descriptor_type("""),
("src/message/message.c",
"""      .part       = pb_part_copy(pb_field_part(field))
    };
    return message;
""",
"""      .part       = pb_part_copy(pb_field_part(field))
    };

    /* Messages always start out at the current version of the journal */
    message.part.version = pb_journal_version(pb_message_journal(&message));
    return message;
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t inner = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL } }, 1 } };
static pb_descriptor_t outer = { {
  (const pb_field_descriptor_t []){ { 1, "s", STRING, OPTIONAL }, { 2, "b", PB_TYPE_BYTES, OPTIONAL } }, 2 } };
int main(void) {
  uint8_t data[] = { 10, 1, 'x', 18, 2, 8, 5 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&outer, &journal);
  pb_field_t field = pb_field_create(&message, 2);
  pb_string_t value = pb_string_init_from_chars("more than before");
  CHECK(!pb_message_put(&message, 1, &value));
  pb_message_t sub = pb_message_create_from_field(&inner, &field);
  uint32_t a = 0;
  CHECK(pb_message_valid(&sub));
  CHECK(!pb_message_get(&sub, 1, &a) && a == 5);
  pb_message_destroy(&sub);
  pb_field_destroy(&field);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
