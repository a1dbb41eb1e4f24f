property = "C16"
needs = "two extensions of one descriptor, and the second one registered again"
breaks = "the extension chain becomes cyclic, so the lookup of an undeclared tag never ends"
edits = [("src/core/descriptor.c",
"""  while (descriptor->extension) {
    if (descriptor->extension == extension)
      return;
    descriptor = descriptor->extension;
  }
""",
"""  if (descriptor->extension == extension)
    return;
  while (descriptor->extension)
    descriptor = descriptor->extension;
""")]
demo = r'''
#include "demo.h"
static pb_descriptor_t base = { { (const pb_field_descriptor_t []){ { 1, "a", UINT32, OPTIONAL } }, 1 } };
static pb_descriptor_t one  = { { (const pb_field_descriptor_t []){ { 2, "b", UINT32, OPTIONAL } }, 1 } };
static pb_descriptor_t two  = { { (const pb_field_descriptor_t []){ { 3, "c", UINT32, OPTIONAL } }, 1 } };
int main(void) {
  pb_descriptor_extend(&base, &one);
  pb_descriptor_extend(&base, &two);
  pb_descriptor_extend(&base, &one);
  pb_descriptor_extend(&base, &two);
  int n = 0;
  for (const pb_descriptor_t *d = &base; d && n < 10; d = d->extension) n++;
  CHECK(n == 3);
  CHECK(pb_descriptor_field_by_tag(&base, 3));
  CHECK(!pb_descriptor_field_by_tag(&base, 9));
  return 0;
}
'''
