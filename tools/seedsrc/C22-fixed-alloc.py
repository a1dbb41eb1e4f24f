property = 'C22'
needs = 'memory running out while the value of a 64-bit field is encoded (after its tag was)'
breaks = 'the error code blames the arguments'
edits = [('src/core/encoder.c', '  return likely_(data && memcpy(data, value, 8))\n    ? PB_ERROR_NONE\n    : PB_ERROR_ALLOC;', '  return likely_(data && memcpy(data, value, 8))\n    ? PB_ERROR_NONE\n    : PB_ERROR_INVALID;')]
demo = r'''
#include "demo.h"
static int left = 1;
static void *allocate(void *d, size_t n) { return left-- > 0 ? malloc(n) : NULL; }
static void *resize(void *d, void *b, size_t n) { return left-- > 0 ? realloc(b, n) : NULL; }
static void release(void *d, void *b) { free(b); }
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){ { 1, "a", FIXED64, OPTIONAL } }, 1 } };
int main(void) {
  pb_allocator_t allocator = { { allocate, resize, release }, NULL };
  uint64_t value = 1;
  pb_encoder_t encoder = pb_encoder_create_with_allocator(&allocator, &descriptor);
  CHECK(pb_encoder_encode(&encoder, 1, &value, 1) == PB_ERROR_ALLOC);
  pb_encoder_destroy(&encoder);
  return 0;
}
'''
