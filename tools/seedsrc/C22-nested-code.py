property = "C22"
needs = "validation of a message with a truncated or malformed submessage"
breaks = "whatever is wrong inside of a submessage other than a missing field is reported as an absent field"
edits = [("src/util/validator.c",
"""  return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE
    ? check(value, tags->depth + 1)
    : PB_ERROR_NONE;
""",
"""  return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE &&
    check(value, tags->depth + 1)
      ? PB_ERROR_ABSENT
      : PB_ERROR_NONE;
""")]
demo = r'''
#include "demo.h"
#include <protobluff/util/validator.h>
static pb_descriptor_t inner = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REQUIRED } }, 1 } };
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", MESSAGE, REPEATED, &inner } }, 1 } };
int main(void) {
  uint8_t data[] = { 10, 2, 8, 1, 10, 1, 8 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_validator_t validator = pb_validator_create(&descriptor);
  CHECK(pb_validator_check(&validator, &buffer) == PB_ERROR_VARINT);
  pb_validator_destroy(&validator);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
