/* Common to all demonstrations: includes and a check macro. */
#include <assert.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <protobluff.h>
#include <protobluff/descriptor.h>

#define CHECK(condition) do { if (!(condition)) { \
  fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #condition); \
  exit(1); } } while (0)

#define BYTES(journal, ...) do { \
  const uint8_t want_[] = { __VA_ARGS__ }; \
  CHECK(pb_journal_size(journal) == sizeof want_); \
  CHECK(!memcmp(pb_journal_data(journal), want_, sizeof want_)); } while (0)
