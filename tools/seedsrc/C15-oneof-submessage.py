property = "C15"
needs = "an incomplete submessage which is the member of a oneof"
breaks = "submessages which are members of a oneof are not validated"
edits = [("src/util/validator.c",
"""  return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE
    ? check(""",
"""  return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE &&
      pb_field_descriptor_label(descriptor) != PB_LABEL_ONEOF
    ? check(""")]
demo = r'''
#include "demo.h"
#include <protobluff/util/validator.h>
static pb_descriptor_t inner = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REQUIRED } }, 1 } };
static pb_oneof_descriptor_t oneof_descriptor;
static pb_descriptor_t outer = { {
  (const pb_field_descriptor_t []){ { 1, "m", MESSAGE, ONEOF, &inner, .value = &oneof_descriptor } }, 1 } };
int main(void) {
  uint8_t data[] = { 10, 2, 16, 1 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_validator_t validator = pb_validator_create(&outer);
  CHECK(pb_validator_check(&validator, &buffer) == PB_ERROR_ABSENT);
  pb_validator_destroy(&validator);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
