property = 'C03'
needs = 'a handler that stops the decoder with the error code EOM'
breaks = 'the decoder takes it for its own end of input and reports success'
edits = [('src/core/decoder.c', '  pb_stream_destroy(&stream);\n  return error;', '  pb_stream_destroy(&stream);\n  return error == PB_ERROR_EOM ? PB_ERROR_NONE : error;')]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL } }, 1 } };
static pb_error_t handler(const pb_field_descriptor_t *d, const void *value, void *user) {
  return PB_ERROR_EOM;
}
int main(void) {
  uint8_t data[] = { 8, 1 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_decoder_t decoder = pb_decoder_create(&descriptor, &buffer);
  CHECK(pb_decoder_decode(&decoder, handler, &buffer) == PB_ERROR_EOM);
  pb_decoder_destroy(&decoder);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
