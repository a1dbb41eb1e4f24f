property = "C06"
needs = "a field written to a message whose fields are not in the order of their tags"
breaks = "the search for the field ends at the first larger tag, so the last occurrence is missed and the value written isn't the one read"
edits = [("src/message/part.c",
"""      } while (pb_cursor_next(&temp));
    }

    /* Don't indicate an error, if the cursor just reached the end */
    if (pb_cursor_error(&temp) == PB_ERROR_EOM) {""",
"""      } while (pb_cursor_next(&temp) && pb_cursor_tag(&temp) <= tag);
    }

    /* Don't indicate an error, if the cursor just reached the end */
    if (pb_cursor_valid(&temp) || pb_cursor_error(&temp) == PB_ERROR_EOM) {""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL }, { 2, "b", UINT32, OPTIONAL } }, 2 } };
int main(void) {
  uint8_t data[] = { 8, 1, 16, 2, 8, 3 };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  uint32_t value = 7;
  CHECK(!pb_message_put(&message, 1, &value));
  value = 0;
  CHECK(!pb_message_get(&message, 1, &value) && value == 7);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
