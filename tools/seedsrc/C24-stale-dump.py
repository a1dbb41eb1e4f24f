property = "C24"
needs = "a message or field that is dumped after another handle has changed the size of something before it"
breaks = "dumps don't account for later changes of the journal, so they show the bytes at the former place"
edits = [("src/message/part.c",
"""  if (!pb_part_aligned(&temp) && pb_part_align(&temp)) {
    fprintf""",
"""  if (unlikely_(!pb_part_valid(&temp))) {
    fprintf""")]
demo = r'''
#include "demo.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static pb_descriptor_t descriptor = { {
  (const pb_field_descriptor_t []){
    { 1, "a", UINT32, OPTIONAL },
    { 2, "b", STRING, OPTIONAL } }, 2 } };
int main(void) {
  const uint8_t data[] = { 8, 1, 18, 3, 'x', 'y', 'z' };
  pb_journal_t journal = pb_journal_create(data, sizeof data);
  pb_message_t message = pb_message_create(&descriptor, &journal);
  pb_field_t field = pb_field_create(&message, 2);
  uint32_t value = 100000;
  CHECK(!pb_message_put(&message, 1, &value));
  FILE *out = tmpfile();
  CHECK(out);
  int saved = dup(1), saved2 = dup(2);
  fflush(stdout); fflush(stderr);
  dup2(fileno(out), 1); dup2(fileno(out), 2);
  pb_field_dump(&field);
  fflush(stdout); fflush(stderr);
  dup2(saved, 1); dup2(saved2, 2);
  char text[4096]; rewind(out);
  size_t size = fread(text, 1, sizeof text - 1, out); text[size] = 0;
  CHECK(strstr(text, "122") && !strstr(text, " 18"));
  pb_field_destroy(&field);
  pb_message_destroy(&message);
  pb_journal_destroy(&journal);
  return 0;
}
'''
