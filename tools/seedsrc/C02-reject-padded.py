property = "C02"
needs = "a varint with padding, as other encoders emit for values patched in later (e.g. 0x81 0x00)"
breaks = "non-minimal encodings are rejected instead of decoded"
edits = [("src/core/stream.c",
"""    pb_stream_left(stream), value);
  return likely_(size != 0)
""",
"""    pb_stream_left(stream), value);
  return likely_(size == 1 || (size &&
    pb_buffer_data_at(stream->buffer, stream->offset + size - 1)))
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL } }, 1 } };
static uint32_t got;
static pb_error_t handler(const pb_field_descriptor_t *d, const void *v, void *u) {
  got = *(const uint32_t *)v; return PB_ERROR_NONE;
}
int main(void) {
  uint8_t data[] = { 8, 0x81, 0x80, 0 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_decoder_t decoder = pb_decoder_create(&descriptor, &buffer);
  CHECK(!pb_decoder_decode(&decoder, handler, NULL));
  CHECK(got == 1);
  pb_decoder_destroy(&decoder);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
