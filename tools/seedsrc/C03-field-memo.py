property = "C03"
needs = "a known field that occurs before and after an unknown one"
breaks = "the decoder remembers the last field it looked up and takes a field as unknown when it follows an unknown one"
edits = [("src/core/decoder.c",
"""  pb_stream_t stream = pb_stream_create(decoder->buffer);
  while (""",
"""  pb_stream_t stream = pb_stream_create(decoder->buffer);
  const pb_field_descriptor_t *descriptor = NULL;
  pb_tag_t last = 0;
  while ("""),
("src/core/decoder.c",
"""    const pb_field_descriptor_t *descriptor =
      pb_descriptor_field_by_tag(decoder->descriptor, tag);
    if (unlikely_(!descriptor)) {
      error = pb_stream_skip(&stream, wiretype);
      continue;
    }
""",
"""    if (tag != last)
      descriptor = pb_descriptor_field_by_tag(decoder->descriptor, tag);
    if (unlikely_(!descriptor)) {
      error = pb_stream_skip(&stream, wiretype);
      continue;
    }
    last = tag;
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", UINT32, REPEATED } }, 1 } };
static int calls;
static pb_error_t handler(const pb_field_descriptor_t *d, const void *v, void *u) {
  calls++; return PB_ERROR_NONE;
}
int main(void) {
  uint8_t data[] = { 8, 1, 8, 2, 16, 7, 8, 3 };
  pb_buffer_t buffer = pb_buffer_create_zero_copy(data, sizeof data);
  pb_decoder_t decoder = pb_decoder_create(&descriptor, &buffer);
  CHECK(!pb_decoder_decode(&decoder, handler, NULL));
  CHECK(calls == 3);
  pb_decoder_destroy(&decoder);
  pb_buffer_destroy(&buffer);
  return 0;
}
'''
