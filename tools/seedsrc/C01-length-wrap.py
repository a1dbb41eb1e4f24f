property = "C01"
needs = "a length prefix close to 2^32, so that adding its own size wraps around"
breaks = "the check against the end of the input wraps, so a string of nearly 4 GB outside the input is handed out"
edits = [("src/core/stream.c",
"""  size_t size = pb_varint_unpack_uint32(
    pb_buffer_data_from(stream->buffer, stream->offset),
    pb_stream_left(stream), &length);
  if (""",
"""  uint32_t size = pb_varint_unpack_uint32(
    pb_buffer_data_from(stream->buffer, stream->offset),
    pb_stream_left(stream), &length);
  if (""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", STRING, OPTIONAL } }, 1 } };
static size_t size;
static pb_error_t handler(const pb_field_descriptor_t *d, const void *v, void *u) {
  size = pb_string_size(v); return PB_ERROR_NONE;
}
int main(void) {
  uint8_t data[] = { 10, 0xfd, 0xff, 0xff, 0xff, 0x0f, 1, 2, 3 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_decoder_t decoder = pb_decoder_create(&descriptor, &buffer);
  CHECK(pb_decoder_decode(&decoder, handler, NULL) != PB_ERROR_NONE);
  CHECK(size == 0);
  pb_decoder_destroy(&decoder);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
