property = 'C04'
needs = '1000 or more values of a packed field encoded with one call'
breaks = 'the values are written one by one instead of as one packed run'
edits = [('src/core/encoder.c', '  if (size > 1 && pb_field_descriptor_packed(descriptor)) {', '  if (size > 1 && size < 1000 && pb_field_descriptor_packed(descriptor)) {')]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REPEATED, NULL, NULL, PACKED } }, 1 } };
int main(void) {
  static uint32_t values[1500];
  pb_encoder_t encoder = pb_encoder_create(&descriptor);
  CHECK(!pb_encoder_encode(&encoder, 1, values, 1500));
  const pb_buffer_t *buffer = pb_encoder_buffer(&encoder);
  CHECK(pb_buffer_size(buffer) == 1503 && pb_buffer_data(buffer)[0] == 10);
  pb_encoder_destroy(&encoder);
  return 0;
}
'''
