property = 'C10'
needs = 'tens of thousands of edits between two uses of a handle'
breaks = 'the record of an edit is looked up by the low 16 bits of its number, so edits after the first 65536 are taken for earlier ones'
edits = [('src/message/journal.c', '    const pb_journal_entry_t *entry = &journal->entry.data[*version];\n\n    /* Current part was cleared before', '    const pb_journal_entry_t *entry = &journal->entry.data[(uint16_t)*version];\n\n    /* Current part was cleared before')]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", STRING, OPTIONAL }, { 2, "b", UINT32, OPTIONAL } }, 2 } };
int main(void) {
  pb_journal_t journal = pb_journal_create_empty();
  pb_message_t message = pb_message_create(&descriptor, &journal);
  uint32_t value = 7, read = 0;
  CHECK(!pb_message_put(&message, 2, &value));
  pb_field_t field = pb_field_create(&message, 2);
  for (int i = 0; i <= 70000; i++) {
    pb_string_t string = { (uint8_t *)"abcdefgh", i < 70000 ? 1 + i % 2 : 8 };
    CHECK(!pb_message_put(&message, 1, &string));
  }
  CHECK(!pb_field_get(&field, &read) && read == 7);
  value = 9;
  CHECK(!pb_field_put(&field, &value));
  BYTES(&journal, 10, 8, 97, 98, 99, 100, 101, 102, 103, 104, 16, 9);
  pb_field_destroy(&field);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
