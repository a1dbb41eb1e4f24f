property = "C09"
needs = "nesting depth of at least two and an edit that shrinks the inner message from 128 or more bytes to fewer, so that its own length prefix gets shorter"
breaks = "the byte saved in a shrinking inner length prefix is not propagated to the outer prefixes"
edits = [("src/message/part.c",
"      /* Adjust delta for subsequent updates */\n      *delta += adjust;",
"      /* Adjust delta for subsequent updates */\n      if (adjust > 0)\n        *delta += adjust;")]
demo = r'''
#include "demo.h"
static pb_descriptor_t leaf = { {
  (const pb_field_descriptor_t []){ { 1, "s", STRING, OPTIONAL } }, 1 } };
static pb_descriptor_t middle = { {
  (const pb_field_descriptor_t []){ { 1, "m", MESSAGE, OPTIONAL, &leaf } }, 1 } };
static pb_descriptor_t root = { {
  (const pb_field_descriptor_t []){ { 1, "m", MESSAGE, OPTIONAL, &middle } }, 1 } };
int main(void) {
  pb_journal_t journal = pb_journal_create_empty();
  pb_message_t message = pb_message_create(&root, &journal);
  char big[200]; memset(big, 'x', sizeof big);
  pb_tag_t tags[] = { 1, 1, 1 };
  pb_string_t string = { (uint8_t *)big, 200 };
  CHECK(!pb_message_nested_put(&message, tags, 3, &string));
  string.size = 2;
  CHECK(!pb_message_nested_put(&message, tags, 3, &string));
  BYTES(&journal, 10, 6, 10, 4, 10, 2, 'x', 'x');
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
