property = "C15"
needs = "a required field behind the first 128 fields of a schema"
breaks = "required fields behind the 128th field may be absent"
edits = [("src/util/validator.c",
"""      } while (!error && pb_descriptor_iter_next(&it));""",
"""      } while (!error && f < 128 && pb_descriptor_iter_next(&it));""")]
demo = r'''
#include "demo.h"
#include <protobluff/util/validator.h>
static pb_field_descriptor_t fields[200];
static pb_descriptor_t descriptor = { { fields, 200 } };
int main(void) {
  for (size_t f = 0; f < 200; f++) {
    pb_field_descriptor_t field = { f + 1, "f", UINT32, f == 150 ? REQUIRED : OPTIONAL };
    memcpy((void *)&fields[f], &field, sizeof field);
  }
  uint8_t data[] = { 8, 1 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_validator_t validator = pb_validator_create(&descriptor);
  CHECK(pb_validator_check(&validator, &buffer) == PB_ERROR_ABSENT);
  pb_validator_destroy(&validator);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
