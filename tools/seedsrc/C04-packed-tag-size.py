property = "C04"
needs = "several values of a packed field with a tag from 16 to 127 (or at another varint boundary)"
breaks = "the space reserved for a packed run is one byte short, so the encoder writes past its buffer and cuts off the last byte"
edits = [("src/core/encoder.c",
"""    buffer, pb_varint_size_uint32(&tag) +
      pb_varint_size_uint32(&length) + length);""",
"""    buffer, pb_varint_size_uint32(&(descriptor->tag)) +
      pb_varint_size_uint32(&length) + length);""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 20, "a", UINT32, REPEATED, .flags = PACKED } }, 1 } };
int main(void) {
  pb_encoder_t encoder = pb_encoder_create(&descriptor);
  const uint32_t values[] = { 1, 2, 3 };
  CHECK(!pb_encoder_encode(&encoder, 20, values, 3));
  const uint8_t want[] = { 0xa2, 1, 3, 1, 2, 3 };
  const pb_buffer_t *buffer = pb_encoder_buffer(&encoder);
  CHECK(pb_buffer_size(buffer) == sizeof want);
  CHECK(!memcmp(pb_buffer_data(buffer), want, sizeof want));
  pb_encoder_destroy(&encoder);
  return 0;
}
'''
