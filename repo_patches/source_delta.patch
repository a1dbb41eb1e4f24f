From 39492f83689822b6eb85005565edaab877571323 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 01/52] fix: never load past the end of the buffer when
 scanning a varint

---
 src/core/varint.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..99868a3 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -23,6 +23,7 @@
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef __SSE2__
 #include <emmintrin.h>
@@ -469,11 +470,6 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
  * non-SSE version, but as it's an entirely internal case that is properly
  * handled by all invoking functions there is no necessity.
  *
- * \warning Using valgrind for tracking down invalid memory accesses, memcheck
- * will complain when it sees loads on data that extend to uninitialized memory
- * regions. This, however, is a false-positive, as uninitialized values are
- * singled out using the mapped bitmask.
- *
  * \param[in] data[] Source buffer
  * \param[in] left   Remaining bytes
  * \return           Bytes read
@@ -492,8 +488,12 @@ pb_varint_scan(const uint8_t data[], size_t left) {
     0x00FF, 0x01FF, 0x03FF
   };
 
+  /* Loads always span 16 bytes, so never load past the remaining bytes */
+  uint8_t block[16] = { 0 };
+  memcpy(block, data, left);
+
   /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
+  __m128i temp = _mm_loadu_si128((const __m128i *)block);
   __m128i high = _mm_set1_epi8(0x80);
 
   /* Intersect and extract mask with high-bits set */
-- 
2.43.0


From c82bd51038ee97433655812dad8f08b4d66b102f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 02/52] fix: check all ten bytes of a negative 32-bit varint
 against the bytes left

---
 src/core/varint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 99868a3..9fc94b6 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -538,8 +538,9 @@ pb_varint_scan(const uint8_t data[], size_t left) {
 extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
-  return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+  return size || left < 10 ? size :
+    data[5] == 0xFF && data[6] == 0xFF && data[7] == 0xFF &&
+    data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 2871a80751ba07e00017fa4dacba001764a3f881 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 03/52] fix: do not left-shift negative values in zig-zag
 encoding

---
 src/core/varint.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 9fc94b6..bcefc9c 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -226,7 +226,7 @@ extern size_t
 pb_varint_size_sint32(const void *value) {
   assert(value);
   return size_map[31 - clz(
-      ((*(const int32_t *)value) << 1)
+      ((*(const uint32_t *)value) << 1)
     ^ ((*(const int32_t *)value) >> 31))];
 }
 
@@ -243,7 +243,7 @@ extern size_t
 pb_varint_size_sint64(const void *value) {
   assert(value);
   return size_map[63 - clzll(
-      ((*(const int64_t *)value) << 1)
+      ((*(const uint64_t *)value) << 1)
     ^ ((*(const int64_t *)value) >> 63))];
 }
 
@@ -428,7 +428,7 @@ pb_varint_pack_uint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_pack_sint32(uint8_t data[], const void *value) {
   assert(data && value);
-  uint32_t temp = ((*(const int32_t *)value) << 1)
+  uint32_t temp = ((*(const uint32_t *)value) << 1)
                 ^ ((*(const int32_t *)value) >> 31);
   return pb_varint_pack_uint32(data, &temp);
 }
@@ -446,7 +446,7 @@ pb_varint_pack_sint32(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_pack_sint64(uint8_t data[], const void *value) {
   assert(data && value);
-  uint64_t temp = ((*(const int64_t *)value) << 1)
+  uint64_t temp = ((*(const uint64_t *)value) << 1)
                 ^ ((*(const int64_t *)value) >> 63);
   return pb_varint_pack_uint64(data, &temp);
 }
-- 
2.43.0


From df2900103125b638d4db1ebdfa51bbda04fa94e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 04/52] fix: report an underrun when a stream ends right before
 a varint

---
 src/core/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..145ff09 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -82,6 +84,8 @@ read_64bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -155,6 +161,8 @@ skip_64bit(pb_stream_t *stream) {
 static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-- 
2.43.0


From b5b2a09d751806d110396614c1f4b024b2173024 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 05/52] fix: reject fields with an illegal wiretype instead of
 calling a null pointer

---
 src/core/stream.c | 2 +-
 src/core/stream.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 145ff09..739a673 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -212,7 +212,7 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
diff --git a/src/core/stream.h b/src/core/stream.h
index bdd40bd..9dee8b7 100644
--- a/src/core/stream.h
+++ b/src/core/stream.h
@@ -211,8 +211,9 @@ pb_stream_read(pb_stream_t *stream, pb_type_t type, void *value) {
 PB_INLINE PB_WARN_UNUSED_RESULT
 pb_error_t
 pb_stream_skip(pb_stream_t *stream, pb_wiretype_t wiretype) {
-  assert(pb_stream_skip_jump[wiretype]);
-  return pb_stream_skip_jump[wiretype](stream);
+  return likely_(pb_stream_skip_jump[wiretype] != NULL)
+    ? pb_stream_skip_jump[wiretype](stream)
+    : PB_ERROR_INVALID;
 }
 
 #endif /* PB_CORE_STREAM_H */
-- 
2.43.0


From 4793bd95901f75b797be8db817ffcb4de8288f19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 06/52] fix: compare the sizes of strings before their contents

---
 include/protobluff/core/string.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..c5719ff 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,9 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    (pb_string_empty(x) ||
+      !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(x)));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From 4bf4cc9e1ecd52cd1e90e28bdb26678353311311 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 07/52] fix: align parts and cursors by the exact range of
 every change

---
 src/message/cursor.c  |  37 +++++----
 src/message/journal.c | 174 ++++++++++++++++++++++--------------------
 src/message/journal.h |   3 +-
 src/message/part.c    |   4 +
 4 files changed, 119 insertions(+), 99 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..642cc15 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -66,9 +66,10 @@ next_packed(pb_cursor_t *cursor) {
       break;
 
     /* Adjust offsets */
-    offset->diff.origin -= offset->end - offset->start;
     offset->start        = offset->end;
     offset->end         += pb_stream_offset(&stream);
+    offset->diff.origin  = pb_message_start(&(cursor->message))
+                         - offset->start;
 
     /* Cleanup and return with success */
     pb_stream_destroy(&stream);
@@ -328,14 +329,14 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
-    do {
+    while (!cursor->error && !result) {
       result = cursor->current.packed.end
         ? next_packed(cursor)
         : next(cursor);
       if (result)
         cursor->pos++;
-    } while (!cursor->error && !result);
-  };
+    }
+  }
   return result;
 }
 
@@ -545,20 +546,26 @@ pb_cursor_align(pb_cursor_t *cursor) {
 
   /* Check if cursor is already aligned */
   if (unlikely_(!pb_cursor_aligned(cursor))) {
-    pb_version_t version = pb_cursor_version(cursor);
+    pb_version_t version = pb_cursor_version(cursor), temp = version;
 
-    /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
-      pb_version_t version = pb_cursor_version(cursor);
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.packed));
+    /* Align underlying message and invalidate cursor, if it was cleared */
+    if ((error = pb_message_align(&(cursor->message)))) {
+      cursor->error = error;
+      return error;
     }
 
-    /* Align current cursor offset */
-    if (!(error = pb_message_align(&(cursor->message)))) {
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.offset));
+    /* Align current packed context offset, if given */
+    if (cursor->current.packed.end)
+      pb_journal_align(pb_cursor_journal(cursor),
+        &temp, &(cursor->current.packed));
+
+    /* Align current cursor offset, and keep the position of a cleared part */
+    pb_offset_t *offset = &(cursor->current.offset);
+    int cleared = !offset->diff.tag && offset->start == offset->end;
+    error = pb_journal_align(pb_cursor_journal(cursor), &version, offset);
+    if (cleared) {
+      offset->end = offset->start;
+      error = PB_ERROR_INVALID;
     }
   }
   return error;
diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..c5aee46 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -40,14 +40,16 @@
  *
  * \param[in,out] journal Journal
  * \param[in]     origin  Origin
- * \param[in]     offset  Offset
+ * \param[in]     start   Start offset
+ * \param[in]     end     End offset
  * \param[in]     delta   Delta
  * \return                Error code
  */
 static pb_error_t
 push(
-    pb_journal_t *journal, size_t origin, size_t offset, ptrdiff_t delta) {
-  assert(journal && origin <= offset && delta);
+    pb_journal_t *journal, size_t origin, size_t start, size_t end,
+    ptrdiff_t delta) {
+  assert(journal && origin <= end && start <= end && delta);
   assert(pb_journal_valid(journal));
   pb_allocator_t *allocator = pb_buffer_allocator(&(journal->buffer));
   if (unlikely_(allocator == &allocator_zero_copy))
@@ -61,7 +63,8 @@ push(
     journal->entry.data = data;
     journal->entry.data[journal->entry.size++] = (pb_journal_entry_t){
       .origin = origin,
-      .offset = offset,
+      .start  = start,
+      .end    = end,
       .delta  = delta
     };
     return PB_ERROR_NONE;
@@ -229,7 +232,7 @@ pb_journal_write(
   /* Perform journaled write if size changed */
   ptrdiff_t delta = size - (end - start);
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_write(&(journal->buffer), start, end, data, size);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -265,7 +268,7 @@ pb_journal_clear(
   /* Perform journaled clear if size changed */
   ptrdiff_t delta = start - end;
   if (delta) {
-    if (likely_(!(error = push(journal, origin, end, delta)))) {
+    if (likely_(!(error = push(journal, origin, start, end, delta)))) {
       error = pb_buffer_clear(&(journal->buffer), start, end);
       if (unlikely_(error))
         pop(journal);                                      /* LCOV_EXCL_LINE */
@@ -278,57 +281,67 @@ pb_journal_clear(
   return error;
 }
 
+/*!
+ * Move a position according to an entry, if the change happened before it.
+ *
+ * \param[in] entry    Journal entry
+ * \param[in] position Position
+ * \param[in] insert   Whether data inserted at the position precedes it
+ * \return             Position
+ */
+static size_t
+move(const pb_journal_entry_t *entry, size_t position, int insert) {
+  assert(entry);
+  return entry->end < position ||
+    (entry->end == position && (insert || entry->start < entry->end))
+      ? position + entry->delta
+      : position;
+}
+
 /*!
  * Align an offset of a specific version according to a journal.
  *
  * This is the core of the journaling functionality, as it allows several
  * different parts to co-exist at the same time, reading or writing values
- * from or to the underlying buffer. However, it's very tricky to get right,
- * as there are three major scenarios as well as some edge cases:
- *
- * -# The change happened before the current part, so the part must be moved by
- *    the given delta. There are two cases which can trigger this scenario:
+ * from or to the underlying buffer. Every entry denotes the replacement of the
+ * data from its start to its end offset, and its origin is the offset at which
+ * the contents of the message (or value) that was altered start. There are
+ * three scenarios:
  *
- *    -# Update on a preceding part, either located in the current message, in
- *       the preceding message or in a parent message.
- *
- *    -# Update on the length prefix of the current part, which is done when
- *       altering the contents of a length-prefixed field or message.
+ * -# The change covers the current part including its header, which means that
+ *    the part was cleared, either itself or together with (or because of new
+ *    contents written to) a message containing it. The only exception is a new
+ *    value written to a member of a packed field, as it doesn't have a header.
  *
  *    \code{.unparsed}
  *      ... [ T ][ L ][ ... ] ...
- *        ^                       (a)
- *        ^^^^^^^^^^^^^^^^
- *                 ^              (b)
+ *          ^^^^^^^^^^^^^^^^^
+ *        ^^^^^^^^^^^^^^^^^^^^^
  *    \endcode
  *
- * -# The change happened within the current part, so the part must either be
- *    resized or cleared completely:
- *
- *    -# The update happened somewhere inside the current part, which makes it
- *       necessary to resize the current part by the given delta.
- *
- *    -# The update involves the whole part from start to end and a negative
- *       delta is given which matches its size, so the part was cleared.
+ * -# The change happened within the contents of the current part, so the part
+ *    must be resized. The origin is necessary to tell data that was appended
+ *    to the current part from data that was inserted right after it.
  *
  *    \code{.unparsed}
  *      ... [ T ][ L ][ ... ] ...
- *                      ^         (a)
- *          ^^^^^^^^^^^^^^^^^     (b)
+ *                      ^
  *    \endcode
  *
- * -# The change happened outside the current part and the delta is negative,
- *    which means that the current part must be cleared completley.
+ * -# The change happened before the contents of the current part, so the part
+ *    must be moved by the given delta. This may be an update on a preceding
+ *    part (a) or on the length prefix of the current part (b), in which case
+ *    the offsets of the header must be kept.
  *
  *    \code{.unparsed}
  *      ... [ T ][ L ][ ... ] ...
- *        ^^^^^^^^^^^^^^^^^^^^^
+ *        ^                       (a)
+ *               ^^^              (b)
  *    \endcode
  *
- * If a parent message is resized, nothing needs to be done, as the current
- * part is contained and seemingly not affected by the update, so this is a
- * case that doesn't need to be explicitly handled. This is repeated until
- * the provided version matches the current version of the journal.
+ * If the change happened after the current part, nothing needs to be done.
+ * This is repeated until the provided version matches the current version of
+ * the journal.
  *
  * \param[in]     journal Journal
  * \param[in,out] version Version
@@ -347,59 +360,54 @@ pb_journal_align(
   while (*version < journal->entry.size) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
-    /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
-      offset->start += entry->delta;
-      offset->end   += entry->delta;
-
-      /* Apply potential update on relative offsets */
-      ptrdiff_t *diff[3] = {
-        &(offset->diff.origin),
-        &(offset->diff.tag),
-        &(offset->diff.length)
-      };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
-          *(diff[d]) -= entry->delta;
-
-    /* Change happened within current part: resize or clear */
-    } else if (entry->origin >= offset->start + offset->diff.origin &&
-               entry->offset <= offset->end) {
-
-      /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
-
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
-            offset->start == offset->end)
-          invalid = 1;
-
-      /* Current part was cleared: clear */
-      } else if (offset->start + offset->diff.tag >=
-                 offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
-
-        /* Invalidate after alignment */
-        invalid = 1;
-      }
-
-    /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
+    /* Determine absolute offsets */
+    size_t origin = offset->start + offset->diff.origin,
+           tag    = offset->start + offset->diff.tag,
+           length = offset->start + offset->diff.length;
+
+    /* Check if the part is a packed field and whether it is the one altered */
+    int packed = offset->diff.origin && !offset->diff.tag;
+    int target = entry->start == offset->start && entry->end == offset->end;
+
+    /* Change covers current part: clear */
+    if (offset->diff.origin && entry->start < entry->end &&
+        entry->start <= tag && entry->end >= offset->end &&
+        !(packed && target && entry->end + entry->delta > entry->start)) {
+      offset->start       = entry->start;
+      offset->end         = entry->start;
       offset->diff.origin = 0;
       offset->diff.tag    = 0;
       offset->diff.length = 0;
 
       /* Invalidate after alignment */
       invalid = 1;
+
+    /* Change covers the offset of a part that was cleared before */
+    } else if (!offset->diff.origin && offset->start == offset->end &&
+               entry->start < offset->start && entry->end > offset->start) {
+      offset->start = entry->start;
+      offset->end   = entry->start;
+
+    /* Change happened within current part: resize */
+    } else if (!invalid && entry->end <= offset->end &&
+               entry->origin >= offset->start && (!packed || target)) {
+      offset->end += entry->delta;
+
+    /* Change happened before current part: move */
+    } else {
+      int empty = offset->start == offset->end;
+      offset->start = move(entry, offset->start, packed);
+      offset->end   = empty
+        ? offset->start
+        : move(entry, offset->end, 0);
+
+      /* Update relative offsets */
+      if (offset->diff.origin)
+        offset->diff.origin = move(entry, origin, 0) - offset->start;
+      if (offset->diff.tag) {
+        offset->diff.tag    = move(entry, tag, 1)    - offset->start;
+        offset->diff.length = move(entry, length, 0) - offset->start;
+      }
     }
     (*version)++;
   }
diff --git a/src/message/journal.h b/src/message/journal.h
index fc20d44..c33e374 100644
--- a/src/message/journal.h
+++ b/src/message/journal.h
@@ -38,7 +38,8 @@
 
 typedef struct pb_journal_entry_t {
   size_t origin;                       /*!< Origin */
-  size_t offset;                       /*!< Offset */
+  size_t start;                        /*!< Start offset */
+  size_t end;                          /*!< End offset */
   ptrdiff_t delta;                     /*!< Delta */
 } pb_journal_entry_t;
 
diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..a412e19 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -494,6 +494,10 @@ pb_part_create_from_cursor(pb_cursor_t *cursor) {
   assert(cursor);
   if (pb_cursor_valid(cursor) && !pb_cursor_align(cursor)) {
     const pb_offset_t *offset = pb_cursor_offset(cursor);
+
+    /* The current part was cleared, so the cursor is between two parts */
+    if (!offset->diff.tag && offset->start == offset->end)
+      return pb_part_create_invalid();
     pb_part_t part = {
       .journal = pb_cursor_journal(cursor),
       .version = pb_cursor_version(cursor),
-- 
2.43.0


From 41c1a4ea2ae7dbaee80ab3a855f0aefe0f430855 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 08/52] fix: only let a later member of the same oneof shadow a
 oneof member

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 642cc15..2b8accc 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -225,7 +225,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From ecd4064357c9e2459e11985795b32b839557c0fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 09/52] fix: prefer the last occurrence of a tag over a later
 field with a smaller tag

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index a412e19..e4021e6 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag || (
+            pb_cursor_tag(&temp) < tag && pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From b378782457ab5ca5cfc8628aebec0ee8f0bbbc4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 10/52] fix: start a packed field when the last occurrence of
 its tag is not packed

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index e4021e6..31e1390 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -430,7 +430,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From 01ef9e6b701ecc0993ded287a9e2bf654a7f875e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 11/52] fix: keep an empty string that is present when creating
 a field for it

---
 src/message/field.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message/field.c b/src/message/field.c
index 488dfea..f9e8f15 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -94,6 +94,7 @@ default_map[] = {
  */
 extern pb_field_t
 pb_field_create(pb_message_t *message, pb_tag_t tag) {
+  int exists = pb_message_has(message, tag);
   pb_field_t field = pb_field_create_without_default(message, tag);
   if (pb_field_valid(&field) && pb_field_empty(&field)) {
     const pb_field_descriptor_t *descriptor =
@@ -103,6 +104,10 @@ pb_field_create(pb_message_t *message, pb_tag_t tag) {
     const void *value = pb_field_descriptor_default(descriptor)
       ? pb_field_descriptor_default(descriptor)
       : default_map[pb_field_descriptor_type(descriptor)];
+
+    /* Don't overwrite an empty value that is already contained */
+    if (exists && pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED)
+      value = NULL;
     if (value && pb_field_put(&field, value)) {
       pb_field_destroy(&field);                            /* LCOV_EXCL_LINE */
       return pb_field_create_invalid();                    /* LCOV_EXCL_LINE */
-- 
2.43.0


From aba869fe14d616669035a84a4d441c73b5c84069 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 12/52] fix: determine the start of a message after erasing
 other oneof members

---
 src/message/part.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index 31e1390..2326cbe 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -409,8 +409,9 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* Otherwise correct insert vector in documented cases */
         const pb_offset_t *offset = pb_cursor_offset(&cursor);
-        if (pb_cursor_tag(&cursor) <= tag)
-          start = offset->end;
+        start = pb_cursor_tag(&cursor) <= tag
+          ? offset->end
+          : pb_message_start(message);
       }
 
       /* Create an empty part */
-- 
2.43.0


From 1e01aaf804bd3f8cd6cca6f3ed59d7527b3e49a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 13/52] fix: keep the position of a cursor whose current field
 was erased

---
 src/message/cursor.c  |  6 +++--
 src/message/journal.c | 57 ++++++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 2b8accc..67da7be 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -563,8 +563,10 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_offset_t *offset = &(cursor->current.offset);
     int cleared = !offset->diff.tag && offset->start == offset->end;
     error = pb_journal_align(pb_cursor_journal(cursor), &version, offset);
-    if (cleared) {
-      offset->end = offset->start;
+    if (error || cleared) {
+      offset->end         = offset->start;
+      offset->diff.origin = pb_message_start(&(cursor->message))
+                          - offset->start;
       error = PB_ERROR_INVALID;
     }
   }
diff --git a/src/message/journal.c b/src/message/journal.c
index c5aee46..8b6ba58 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -355,14 +355,28 @@ pb_journal_align(
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
 
+  /* Check if the part was already cleared, so only its position is known */
+  size_t origin = offset->start + offset->diff.origin;
+  uint8_t invalid = 0, cleared = offset->diff.origin && !offset->diff.tag &&
+    offset->start == offset->end;
+
   /* Iterate journal entries until we're up-to-date */
-  uint8_t invalid = 0;
-  while (*version < journal->entry.size) {
+  for (; *version < journal->entry.size; (*version)++) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
 
+    /* Current part was cleared before: move position */
+    if (cleared) {
+      offset->start = entry->start < offset->start &&
+                      entry->end   > offset->start
+        ? entry->start
+        : move(entry, offset->start, entry->origin > origin);
+      offset->end = offset->start;
+      origin      = move(entry, origin, 0);
+      continue;
+    }
+
     /* Determine absolute offsets */
-    size_t origin = offset->start + offset->diff.origin,
-           tag    = offset->start + offset->diff.tag,
+    size_t tag    = offset->start + offset->diff.tag,
            length = offset->start + offset->diff.length;
 
     /* Check if the part is a packed field and whether it is the one altered */
@@ -373,24 +387,16 @@ pb_journal_align(
     if (offset->diff.origin && entry->start < entry->end &&
         entry->start <= tag && entry->end >= offset->end &&
         !(packed && target && entry->end + entry->delta > entry->start)) {
-      offset->start       = entry->start;
-      offset->end         = entry->start;
-      offset->diff.origin = 0;
-      offset->diff.tag    = 0;
-      offset->diff.length = 0;
-
-      /* Invalidate after alignment */
-      invalid = 1;
-
-    /* Change covers the offset of a part that was cleared before */
-    } else if (!offset->diff.origin && offset->start == offset->end &&
-               entry->start < offset->start && entry->end > offset->start) {
       offset->start = entry->start;
       offset->end   = entry->start;
+      origin        = move(entry, origin, 0);
+
+      /* Invalidate after alignment */
+      invalid = cleared = 1;
 
     /* Change happened within current part: resize */
-    } else if (!invalid && entry->end <= offset->end &&
-               entry->origin >= offset->start && (!packed || target)) {
+    } else if (entry->origin >= offset->start &&
+               entry->end    <= offset->end && (!packed || target)) {
       offset->end += entry->delta;
 
     /* Change happened before current part: move */
@@ -402,19 +408,26 @@ pb_journal_align(
         : move(entry, offset->end, 0);
 
       /* Update relative offsets */
-      if (offset->diff.origin)
-        offset->diff.origin = move(entry, origin, 0) - offset->start;
+      if (offset->diff.origin) {
+        origin = move(entry, origin, 0);
+        offset->diff.origin = origin - offset->start;
+      }
       if (offset->diff.tag) {
         offset->diff.tag    = move(entry, tag, 1)    - offset->start;
         offset->diff.length = move(entry, length, 0) - offset->start;
       }
     }
-    (*version)++;
   }
 
   /* Invalidate part */
-  if (invalid)
+  if (invalid) {
+    offset->diff.origin = 0;
+    offset->diff.tag    = 0;
+    offset->diff.length = 0;
     *version = SIZE_MAX;
+  } else if (cleared) {
+    offset->diff.origin = origin - offset->start;
+  }
   return *version == SIZE_MAX
     ? PB_ERROR_INVALID
     : PB_ERROR_NONE;
-- 
2.43.0


From 477f6b45181f3d8ce5818827ed248187bb31705d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 14/52] fix: leave the packed context of a cursor when the
 packed field was cleared

---
 src/message/cursor.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 67da7be..ca02781 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -554,10 +554,11 @@ pb_cursor_align(pb_cursor_t *cursor) {
       return error;
     }
 
-    /* Align current packed context offset, if given */
-    if (cursor->current.packed.end)
-      pb_journal_align(pb_cursor_journal(cursor),
-        &temp, &(cursor->current.packed));
+    /* Align current packed context offset, and leave it, if it was cleared */
+    if (cursor->current.packed.end &&
+        pb_journal_align(pb_cursor_journal(cursor),
+          &temp, &(cursor->current.packed)))
+      cursor->current.packed.end = 0;
 
     /* Align current cursor offset, and keep the position of a cleared part */
     pb_offset_t *offset = &(cursor->current.offset);
-- 
2.43.0


From 1afc73fc2326cd3b53db8898e938ba0b31a5f9fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 15/52] fix: assert the descriptor of the current message when
 resolving a branch

---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..ecce423 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From e36343463e9e4471ed2b7a68319245a706cffa33 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 16/52] fix: allow empty strings and submessages to be written
 in debug builds

---
 src/message/buffer.c  | 5 +++--
 src/message/journal.c | 2 +-
 src/message/part.c    | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index 2fb3abb..ac327d3 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -53,7 +53,7 @@ extern pb_error_t
 pb_buffer_write(
     pb_buffer_t *buffer, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(buffer && data && size);
+  assert(buffer && (data || !size));
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
 
@@ -96,7 +96,8 @@ pb_buffer_write(
   }
 
   /* Finally, copy data */
-  memcpy(&(buffer->data[start]), data, size);
+  if (size)
+    memcpy(&(buffer->data[start]), data, size);
   return PB_ERROR_NONE;
 }
 
diff --git a/src/message/journal.c b/src/message/journal.c
index 8b6ba58..9519319 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -224,7 +224,7 @@ extern pb_error_t
 pb_journal_write(
     pb_journal_t *journal, size_t origin, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(journal && data && size);
+  assert(journal && (data || !size));
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
diff --git a/src/message/part.c b/src/message/part.c
index 2326cbe..4b30e30 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -545,7 +545,7 @@ pb_part_error(const pb_part_t *part) {
  */
 extern pb_error_t
 pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
-  assert(part && data && size);
+  assert(part && (data || !size));
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-- 
2.43.0


From 40b3d20e05b38dd3e26d9eaea53a43c7c682f625 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 17/52] fix: align new parts after updating the length prefixes
 of their parents

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 4b30e30..8a04efb 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -280,7 +280,8 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
       part->offset.diff.length -= part->offset.start;
 
       /* Recursive length prefix update of parent messages */
-      if (!adjust(part, size))
+      if (!adjust(part, size) && (
+          pb_part_aligned(part) || !pb_part_align(part)))
         return;
     }                                                      /* LCOV_EXCL_LINE */
   } while (0);                                             /* LCOV_EXCL_LINE */
-- 
2.43.0


From 178a630d322e8371fdbce439a4d58d89d39f7858 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 18/52] fix: find enum values preceded by negative or aliased
 numbers

---
 src/core/descriptor.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..dbd580e 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,9 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning The values need to be in ascending order, but other than the tags in
+ * pb_descriptor_field_by_tag(), the numbers may be negative or, if aliases are
+ * allowed, occur more than once, so they can't be used as an array index.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +173,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From b6cc2548708e138b71280c612d196b351d0c92b4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 19/52] fix: decode messages with many fields without
 exhausting the stack

---
 src/core/decoder.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..e82e357 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -20,7 +20,6 @@
  * IN THE SOFTWARE.
  */
 
-#include <alloca.h>
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -85,6 +84,13 @@ pb_decoder_decode(
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
+  /* Reserve temporary space for type-agnostic decoding */
+  union {
+    uint64_t    scalar;
+    pb_string_t string;
+  } temp;
+  void *value = &temp;
+
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
   while (!error && pb_stream_left(&stream)) {
@@ -104,10 +110,6 @@ pb_decoder_decode(
       continue;
     }
 
-    /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
-
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
     if (wiretype != pb_field_descriptor_wiretype(descriptor) &&
-- 
2.43.0


From 76ea09be1a5db57fe077dc07802f9fd6df4e63cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 20/52] fix: reject packed fields whose last value exceeds
 their length

---
 src/core/decoder.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index e82e357..7fcaa49 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -124,9 +124,15 @@ pb_decoder_decode(
         error = PB_ERROR_OFFSET;
 
       /* Iterate values of packed field */
-      while (!error && pb_stream_offset(&stream) < offset + length)
-        if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+      while (!error && pb_stream_offset(&stream) < offset + length) {
+        if (unlikely_(error = pb_stream_read(&stream, type, value)))
+          break;
+
+        /* Ensure the value doesn't exceed the packed field */
+        error = likely_(pb_stream_offset(&stream) <= offset + length)
+          ? handler(descriptor, value, user)
+          : PB_ERROR_OFFSET;
+      }
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From 1978c8e90cc82ea63c067cb9e97bd4d0d2f51aac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 21/52] fix: report truncated fields at the end of a message
 instead of its end

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index ca02781..8595d37 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -171,7 +171,7 @@ next(pb_cursor_t *cursor) {
   }
 
   /* Invalidate cursor if at end */
-  if (!(pb_stream_left(&stream) && cursor->error))
+  if (!cursor->error)
     cursor->error = PB_ERROR_EOM;
 
   /* Cleanup and return */
-- 
2.43.0


From b3b8df3c11247e3e80914bf9826ed107e3d9ed59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 22/52] fix: free the space of a buffer that is emptied by a
 write

---
 src/message/buffer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index ac327d3..6e70ef1 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -81,7 +81,7 @@ pb_buffer_write(
       }
 
     /* Buffer shrinks, so move data and then shrink space */
-    } else {
+    } else if (buffer->size + delta) {
       if (end < buffer->size)
         memmove(&(buffer->data[end + delta]), &(buffer->data[end]),
           buffer->size - end);
@@ -89,6 +89,11 @@ pb_buffer_write(
         buffer->data, buffer->size + delta);
       if (new_data)
         buffer->data = new_data;
+
+    /* Buffer is emptied completely, so free space */
+    } else {
+      pb_allocator_free(buffer->allocator, buffer->data);
+      buffer->data = NULL;
     }
 
     /* Update buffer size */
-- 
2.43.0


From 110ecd6c3158efba9431296ca8c5f058f1543842 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 23/52] fix: let iterators end at the only element of a
 descriptor

---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From fe0e313ca23e5e6279af077db6af90a1d3f07267 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 24/52] fix: reserve space for extension fields when validating
 a message

---
 src/util/validator.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..be340dd 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -93,20 +93,25 @@ check(const pb_decoder_t *decoder) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
 
+  /* Determine number of fields, including extensions */
+  size_t size = 0;
+  for (const pb_descriptor_t *descriptor = pb_decoder_descriptor(decoder);
+      descriptor; descriptor = pb_descriptor_extension(descriptor))
+    size += pb_descriptor_size(descriptor);
+
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t)
-          * pb_descriptor_size(pb_decoder_descriptor(decoder))),
+    .data = alloca(sizeof(pb_tag_t) * size),
     .size = 0
   };
 
   /* Count occurrences using the given decoder */
   pb_error_t error = pb_decoder_decode(decoder, handler, &tags);
 
-  /* Check for absent required fields */
-  if (likely_(!error)) {
-    pb_descriptor_iter_t it =
-      pb_descriptor_iter_create(decoder->descriptor);
+  /* Check for absent required fields, including extensions */
+  for (const pb_descriptor_t *base = pb_decoder_descriptor(decoder);
+      base && likely_(!error); base = pb_descriptor_extension(base)) {
+    pb_descriptor_iter_t it = pb_descriptor_iter_create(base);
     if (pb_descriptor_iter_begin(&it)) {
       do {
         const pb_field_descriptor_t *descriptor =
-- 
2.43.0


From ca264b0733d2e52c5f37dd53161f900ee3e216e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 25/52] fix: limit the nesting depth of messages in the
 validator

---
 src/util/validator.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index be340dd..3945de6 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -36,7 +36,15 @@
 
 static pb_error_t
 check(
-  const pb_decoder_t *decoder);        /* Decoder */
+  const pb_decoder_t *decoder,         /* Decoder */
+  size_t depth);                       /* Nesting depth */
+
+/* ----------------------------------------------------------------------------
+ * Macros
+ * ------------------------------------------------------------------------- */
+
+/*! Maximum nesting depth, as submessages are checked recursively */
+#define DEPTH_MAX 512
 
 /* ----------------------------------------------------------------------------
  * Type definitions
@@ -45,6 +53,7 @@ check(
 typedef struct pb_validator_tags_t {
   pb_tag_t *data;                      /*!< Tags */
   size_t size;                         /*!< Tag count */
+  size_t depth;                        /*!< Nesting depth */
 } pb_validator_tags_t;
 
 /* ----------------------------------------------------------------------------
@@ -74,7 +83,7 @@ handler(
 
   /* In case of submessage, perform recursive check */
   return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE
-    ? check(value)
+    ? check(value, tags->depth + 1)
     : PB_ERROR_NONE;
 }
 
@@ -85,13 +94,19 @@ handler(
 /*!
  * Decode a buffer and count field occurrences.
  *
+ * Submessages are checked recursively, so messages that exceed the maximum
+ * nesting depth are rejected in order not to exhaust the stack.
+ *
  * \param[in] decoder Decoder
+ * \param[in] depth   Nesting depth
  * \return            Error code
  */
 static pb_error_t
-check(const pb_decoder_t *decoder) {
+check(const pb_decoder_t *decoder, size_t depth) {
   assert(decoder);
   assert(pb_decoder_valid(decoder));
+  if (unlikely_(depth > DEPTH_MAX))
+    return PB_ERROR_INVALID;
 
   /* Determine number of fields, including extensions */
   size_t size = 0;
@@ -101,8 +116,9 @@ check(const pb_decoder_t *decoder) {
 
   /* Initialize occurrence counter */
   pb_validator_tags_t tags = {
-    .data = alloca(sizeof(pb_tag_t) * size),
-    .size = 0
+    .data  = alloca(sizeof(pb_tag_t) * size),
+    .size  = 0,
+    .depth = depth
   };
 
   /* Count occurrences using the given decoder */
@@ -152,7 +168,7 @@ pb_validator_check(
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
   pb_decoder_t decoder = pb_decoder_create(validator->descriptor, buffer);
-  pb_error_t   error   = check(&decoder);
+  pb_error_t   error   = check(&decoder, 0);
   pb_decoder_destroy(&decoder);
   return error;
 }
-- 
2.43.0


From e29853ac4d326f325ba4d64d964d8f35bdc5be49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 26/52] fix: stop at the first error of an encoder and discard
 incomplete data

---
 src/core/encoder.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..e4315df 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -364,7 +364,8 @@ pb_encoder_encode(
   assert(encoder && tag && values && size);
   if (unlikely_(!pb_encoder_valid(encoder)))
     return PB_ERROR_INVALID;
-  pb_error_t error = PB_ERROR_NONE;
+  pb_error_t error  = PB_ERROR_NONE;
+  size_t     offset = pb_buffer_size(&(encoder->buffer));
 
   /* Assert descriptor and correct label */
   const pb_field_descriptor_t *descriptor =
@@ -382,11 +383,15 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
   }
+
+  /* Discard incomplete data, if encoding failed */
+  if (unlikely_(error))
+    encoder->buffer.size = offset;
   return error;
 }
-- 
2.43.0


From 4fffd3f4b2e6ca25368c77751dc56ecfbabb1387 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 27/52] fix: report undeclared tags and surplus values as
 invalid arguments

---
 src/core/encoder.c    |  8 +++++---
 src/message/field.c   |  5 +++--
 src/message/message.c | 22 ++++++++++++++--------
 src/message/nested.c  |  4 ++--
 src/message/part.c    |  8 +++-----
 5 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index e4315df..ace5da1 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -367,11 +367,13 @@ pb_encoder_encode(
   pb_error_t error  = PB_ERROR_NONE;
   size_t     offset = pb_buffer_size(&(encoder->buffer));
 
-  /* Assert descriptor and correct label */
+  /* Check descriptor and correct label */
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(encoder->descriptor, tag);
-  assert(descriptor && (
-    size == 1 || pb_field_descriptor_label(descriptor) == PB_LABEL_REPEATED));
+  if (unlikely_(!descriptor || (
+      size != 1 &&
+        pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED)))
+    return PB_ERROR_INVALID;
 
   /* Encode values based on potential packed flag */
   if (size > 1 && pb_field_descriptor_packed(descriptor)) {
diff --git a/src/message/field.c b/src/message/field.c
index f9e8f15..46c1bdb 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -134,8 +134,9 @@ pb_field_create_without_default(pb_message_t *message, pb_tag_t tag) {
   if (pb_message_valid(message)) {
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
-    assert(descriptor &&
-      pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE);
+    if (unlikely_(!descriptor))
+      return pb_field_create_invalid();
+    assert(pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE);
     pb_field_t field = {
       .descriptor = descriptor,
       .part       = pb_part_create(message, tag)
diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..6735c43 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -68,7 +68,9 @@ pb_message_create_within(pb_message_t *message, pb_tag_t tag) {
   if (pb_message_valid(message)) {
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(message->descriptor, tag);
-    assert(descriptor &&
+    if (unlikely_(!descriptor))
+      return pb_message_create_invalid();
+    assert(
       pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE &&
       pb_field_descriptor_nested(descriptor));
     pb_message_t submessage = {
@@ -105,7 +107,7 @@ pb_message_create_nested(
     /* Assert non-repeated non-leaf messages */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(this.descriptor, tags[t]);
-    assert(descriptor && (
+    assert(!descriptor || (
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE && (
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED ||
         t == size - 1)));
@@ -223,7 +225,7 @@ pb_message_match(pb_message_t *message, pb_tag_t tag, const void *value) {
   /* Assert non-message field */
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
-  assert(descriptor &&
+  assert(!descriptor ||
     pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE);
 
 #endif /* NDEBUG */
@@ -259,7 +261,9 @@ pb_message_get(pb_message_t *message, pb_tag_t tag, void *value) {
   /* Assert non-repeated non-message field */
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
-  assert(descriptor &&
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
+  assert(
     pb_field_descriptor_type(descriptor)  != PB_TYPE_MESSAGE &&
     pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
 
@@ -309,10 +313,11 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
-  /* Assert descriptor */
+  /* Check descriptor */
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
-  assert(descriptor);
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Create field and write value */
   if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
@@ -368,10 +373,11 @@ pb_message_erase(pb_message_t *message, pb_tag_t tag) {
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
-  /* Assert descriptor */
+  /* Check descriptor */
   const pb_field_descriptor_t *descriptor =
     pb_descriptor_field_by_tag(message->descriptor, tag);
-  assert(descriptor);
+  if (unlikely_(!descriptor))
+    return PB_ERROR_INVALID;
 
   /* Clear non-oneof field or submessage */
   if (likely_(pb_field_descriptor_label(descriptor) != PB_LABEL_ONEOF)) {
diff --git a/src/message/nested.c b/src/message/nested.c
index ecce423..476054b 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -63,9 +63,9 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
-    assert(descriptor &&
+    assert(!descriptor || (
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
-      pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
+      pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED));
 
 #endif /* NDEBUG */
 
diff --git a/src/message/part.c b/src/message/part.c
index 8a04efb..de47c2a 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -342,9 +342,6 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
  * not recognized by the parser (except empty strings), so the caller must
  * ensure that a value is set directly after creating a new part.
  *
- * \warning The existence of the descriptor field is checked with an assertion,
- * as the tag is assumed to be specified at compile time.
- *
  * \param[in,out] message Message
  * \param[in]     tag     Tag
  * \return                Part
@@ -356,10 +353,11 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     if (!pb_message_valid(message) || pb_message_align(message))
       break;
 
-    /* Assert descriptor */
+    /* Check descriptor */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
-    assert(descriptor);
+    if (unlikely_(!descriptor))
+      break;
 
     /* Determine exact or best matching field offset */
     pb_cursor_t cursor = pb_cursor_create_without_tag(message);
-- 
2.43.0


From 43f012e4763f656e81ee1465f250a28160ad2336 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 28/52] fix: report when a chunk cannot be grown to the
 requested size

---
 src/util/chunk_allocator.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..212e3c0 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,10 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+
+      /* The original block is left untouched */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From bf5e34898a68544ed2e3a809cd07627d8975ee7c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 29/52] fix: refuse chunks whose size cannot be represented

---
 src/util/chunk_allocator.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index 212e3c0..584bcda 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -61,6 +61,18 @@ typedef struct pb_chunk_allocator_t {
   (assert(block), (void *)((uint8_t *)(block) - \
     sizeof(pb_chunk_allocator_t)))
 
+/*!
+ * Retrieve the maximum size of a memory block, so that neither the calculation
+ * of the capacity nor of the size of the chunk can overflow.
+ *
+ * \param[in] base Base chunk
+ * \return         Maximum size
+ */
+#define capacity_max(base) \
+  ((base)->capacity < SIZE_MAX / 2 - sizeof(pb_chunk_allocator_t) \
+    ? SIZE_MAX / 2 - sizeof(pb_chunk_allocator_t) - (base)->capacity \
+    : 0)
+
 /* ----------------------------------------------------------------------------
  * Allocator callbacks
  * ------------------------------------------------------------------------- */
@@ -98,6 +110,8 @@ allocator_allocate(void *data, size_t size) {
     head = head->next;
 
   /* Calculate necessary capacity */
+  if (unlikely_(size > capacity_max(base)))
+    return NULL;                                           /* LCOV_EXCL_LINE */
   size_t capacity = base->capacity * (size / base->capacity + 1);
 
   /* Allocate chunk and link in predecessor */
@@ -147,6 +161,8 @@ allocator_resize(void *data, void *block, size_t size) {
         head = head->next;
 
       /* Calculate new capacity */
+      if (unlikely_(size > capacity_max(base)))
+        return NULL;                                       /* LCOV_EXCL_LINE */
       size_t capacity = base->capacity * (size / base->capacity + 1);
 
       /* Grow chunk and link in predecessor */
-- 
2.43.0


From 01d9e6b562f385b8d403d7e4989a0cfde030634e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 30/52] fix: refuse to encode an invalid encoder as a
 submessage

---
 src/core/encoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index ace5da1..9a4a4a3 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -122,6 +122,8 @@ encode_length(
   /* Extract data and size according to type */
   const uint8_t *string; uint32_t length;
   if (pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE) {
+    if (unlikely_(!pb_encoder_valid(value)))
+      return PB_ERROR_INVALID;
     string = pb_buffer_data(pb_encoder_buffer(value));
     length = pb_buffer_size(pb_encoder_buffer(value));
   } else {
-- 
2.43.0


From ec8fe31343681c8995822774d1ae3d1c81b8119d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 31/52] fix: reject the illegal tag zero instead of failing an
 assertion

---
 src/core/decoder.c   | 5 ++++-
 src/message/cursor.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 7fcaa49..e633f59 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -100,7 +100,10 @@ pb_decoder_decode(
 
     /* Extract wiretype and tag */
     pb_wiretype_t wiretype = tag & 7;
-    tag >>= 3;
+    if (unlikely_(!(tag >>= 3))) {
+      error = PB_ERROR_INVALID;
+      break;
+    }
 
     /* Check descriptor and skip field if unknown */
     const pb_field_descriptor_t *descriptor =
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 8595d37..78e4269 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -119,7 +119,10 @@ next(pb_cursor_t *cursor) {
 
     /* Extract wiretype and tag */
     pb_wiretype_t wiretype = tag & 7;
-    tag >>= 3;
+    if (unlikely_(!(tag >>= 3))) {
+      cursor->error = PB_ERROR_INVALID;
+      break;
+    }
 
     /* Skip field contents to determine length */
     offset->diff.length = pb_stream_offset(&stream);
-- 
2.43.0


From 94751e733d068c12afa8e160907c3ff3cb750761 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 32/52] fix: report a failure to erase the other members of a
 oneof

---
 src/message/part.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message/part.c b/src/message/part.c
index de47c2a..fcb7b3c 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -382,19 +382,20 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
+              if ((error = pb_cursor_erase(&temp)))
                 break;                                     /* LCOV_EXCL_LINE */
           } while (pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-          if (pb_message_align(message))
+          if (error || pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
         }
 
-- 
2.43.0


From f53ee4fba7a8397690e807f34dc763bff43e0b46 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 33/52] fix: don't decode a value under a wiretype its field
 doesn't have

---
 src/core/decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index e633f59..1b894a3 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -137,6 +137,10 @@ pb_decoder_decode(
           : PB_ERROR_OFFSET;
       }
 
+    /* Skip field like an unknown one if its wiretype doesn't match */
+    } else if (unlikely_(wiretype != pb_field_descriptor_wiretype(descriptor))) {
+      error = pb_stream_skip(&stream, wiretype);
+
     /* Read value of given type from stream */
     } else {
       if (unlikely_(error = pb_stream_read(&stream, type, value)))
-- 
2.43.0


From 20143e28147ef086c5c7a878c5cea396f7b92c95 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 34/52] fix: don't stop at or overwrite a field under a foreign
 wiretype

---
 src/message/cursor.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 78e4269..5b53cc6 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -156,9 +156,14 @@ next(pb_cursor_t *cursor) {
         continue;
     }
 
+    /* Treat field like an unknown one if its wiretype doesn't match */
+    int match =
+      wiretype == pb_field_descriptor_wiretype(cursor->current.descriptor);
+    if (unlikely_(!match && wiretype != PB_WIRETYPE_LENGTH))
+      continue;
+
     /* Switch to packed context in case of packed field */
-    if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor) &&
-        wiretype == PB_WIRETYPE_LENGTH) {
+    if (!match) {
       *packed = *offset;
 
       /* Prepare offsets for packed field members */
-- 
2.43.0


From cc28f7be18e094f57477cf262e73753849ac8955 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 35/52] fix: don't create submessages for tag paths that lead
 to undeclared fields

---
 src/core/descriptor.h | 23 +++++++++++++++++++++++
 src/message/cursor.c  |  3 +++
 src/message/field.c   |  3 +++
 src/message/message.c |  3 +++
 src/message/nested.c  |  3 +++
 5 files changed, 35 insertions(+)

diff --git a/src/core/descriptor.h b/src/core/descriptor.h
index c50ab37..88ddc79 100644
--- a/src/core/descriptor.h
+++ b/src/core/descriptor.h
@@ -47,4 +47,27 @@ pb_descriptor_reset(pb_descriptor_t *descriptor) {
   descriptor->extension = NULL;
 }
 
+/*!
+ * Retrieve the field descriptor for a branch of tags from a descriptor.
+ *
+ * \param[in] descriptor Descriptor
+ * \param[in] tags[]     Tags
+ * \param[in] size       Tag count
+ * \return               Field descriptor
+ */
+PB_WARN_UNUSED_RESULT
+PB_INLINE const pb_field_descriptor_t *
+pb_descriptor_field_by_tags(
+    const pb_descriptor_t *descriptor, const pb_tag_t tags[], size_t size) {
+  assert(tags && size);
+  const pb_field_descriptor_t *field = NULL;
+  for (size_t t = 0; t < size; ++t) {
+    if (!descriptor ||
+        !(field = pb_descriptor_field_by_tag(descriptor, tags[t])))
+      return NULL;
+    descriptor = pb_field_descriptor_nested(field);
+  }
+  return field;
+}
+
 #endif /* PB_CORE_DESCRIPTOR_H */
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 5b53cc6..b807eb5 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -303,6 +303,9 @@ extern pb_cursor_t
 pb_cursor_create_nested(
     pb_message_t *message, const pb_tag_t tags[], size_t size) {
   assert(message && tags && size > 1);
+  if (unlikely_(pb_message_valid(message) && !pb_descriptor_field_by_tags(
+      pb_message_descriptor(message), tags, size)))
+    return pb_cursor_create_invalid();
   pb_message_t submessage =
     pb_message_create_nested(message, tags, --size);
   pb_cursor_t cursor = pb_cursor_create(&submessage, tags[size]);
diff --git a/src/message/field.c b/src/message/field.c
index 46c1bdb..7ea5488 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -158,6 +158,9 @@ extern pb_field_t
 pb_field_create_nested(
     pb_message_t *message, const pb_tag_t tags[], size_t size) {
   assert(message && tags && size > 1);
+  if (unlikely_(pb_message_valid(message) && !pb_descriptor_field_by_tags(
+      pb_message_descriptor(message), tags, size)))
+    return pb_field_create_invalid();
   pb_message_t submessage =
     pb_message_create_nested(message, tags, --size);
   pb_field_t field = pb_field_create(&submessage, tags[size]);
diff --git a/src/message/message.c b/src/message/message.c
index 6735c43..079316b 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -97,6 +97,9 @@ extern pb_message_t
 pb_message_create_nested(
     pb_message_t *message, const pb_tag_t tags[], size_t size) {
   assert(message && tags && size);
+  if (unlikely_(pb_message_valid(message) &&
+      !pb_descriptor_field_by_tags(message->descriptor, tags, size)))
+    return pb_message_create_invalid();
   pb_message_t prev = pb_message_create_invalid(),
                this = pb_message_copy(message);
   for (size_t t = 0; t < size && pb_message_valid(&this); ++t) {
diff --git a/src/message/nested.c b/src/message/nested.c
index 476054b..4ab9938 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -194,6 +194,9 @@ pb_message_nested_put(
     const pb_tag_t tags[], size_t size,
     const void *value) {
   assert(message && tags && size > 1 && value);
+  if (unlikely_(pb_message_valid(message) && !pb_descriptor_field_by_tags(
+      pb_message_descriptor(message), tags, size)))
+    return PB_ERROR_INVALID;
   pb_message_t submessage =
     pb_message_create_nested(message, tags, --size);
   pb_error_t error = pb_message_put(&submessage, tags[size], value);
-- 
2.43.0


From 866e99463da275aab339b13dac3eed0c89496dac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 36/52] fix: don't query the extension scope of ordinary fields
 in the generator

---
 src/generator/field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e86edfa..c5802ec 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -77,7 +77,7 @@ namespace protobluff {
 
     /* Prefix scope to identifiers, if given */
     string prefix ("");
-    if (descriptor_->extension_scope()) {
+    if (descriptor_->is_extension() && descriptor_->extension_scope()) {
       const Descriptor *scope = descriptor_->extension_scope();
       prefix = scope->full_name();
 
-- 
2.43.0


From b647e36f2edab8dee989253386e2074e0a9b0c59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 37/52] fix: don't generate default values for oneof members

---
 src/generator/field.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c5802ec..1d0f75c 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -827,12 +827,16 @@ namespace protobluff {
   /*!
    * Check whether a field defines a default value.
    *
+   * The value of the descriptor of a oneof member is the descriptor of the
+   * oneof, so there's no space for a default value.
+   *
    * \return Test result
    */
   bool Field::
   HasDefault() const {
-    return descriptor_->has_default_value() ||
-      (descriptor_->enum_type() && descriptor_->is_optional());
+    return !descriptor_->containing_oneof() && (
+      descriptor_->has_default_value() ||
+      (descriptor_->enum_type() && descriptor_->is_optional()));
   }
 
   /*!
-- 
2.43.0


From aa47edd2cf2ee67a818059b931998bacc4a3522b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 38/52] fix: create oneofs from the descriptor of the oneof in
 generated accessors

---
 src/generator/oneof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 82fcd5d..74615d1 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -169,7 +169,7 @@ namespace protobluff {
       "  assert(pb_message_descriptor(message) == \n"
       "    &`message`_descriptor);\n"
       "  pb_oneof_t oneof = pb_oneof_create(\n"
-      "    &`message`_descriptor, message);\n"
+      "    &`oneof`_descriptor, message);\n"
       "  pb_tag_t tag = pb_oneof_case(&oneof);\n"
       "  pb_oneof_destroy(&oneof);\n"
       "  return tag;\n"
-- 
2.43.0


From b259bb789d3c1f63b1b421d3e9de41fb6f1b3ab8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 39/52] fix: determine the indexes of oneof members after
 sorting fields by tag

---
 src/generator/oneof.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 74615d1..9b5778d 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -137,8 +137,9 @@ namespace protobluff {
     sort(tags.begin(), tags.end());
 
     /* Generate indexes */
-    for (size_t f = 0, g = 0; f < descriptor->field_count(); f++) {
-      if (descriptor->field(f) == descriptor_->field(g)) {
+    for (size_t f = 0, g = 0; f < tags.size(); f++) {
+      const FieldDescriptor *field = descriptor->FindFieldByNumber(tags.at(f));
+      if (field->containing_oneof() == descriptor_) {
         printer->Print("`index`", "index", SimpleItoa(f));
         if (g < descriptor_->field_count() - 1)
           printer->Print(", ");
-- 
2.43.0


From 2ad06443eb09ba0a5adc76f4bf1074f7191ca0c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 40/52] fix: escape default values of strings and bytes in
 generated descriptors

---
 src/generator/field.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 1d0f75c..5845655 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -55,6 +55,7 @@ namespace protobluff {
   using ::google::protobuf::FieldDescriptor;
   using ::google::protobuf::io::Printer;
 
+  using ::google::protobuf::CEscape;
   using ::google::protobuf::HasPrefixString;
   using ::google::protobuf::JoinStrings;
   using ::google::protobuf::LowerString;
@@ -222,11 +223,9 @@ namespace protobluff {
           break;
         case FieldDescriptor::CPPTYPE_STRING:
           variables_["default"] = "pb_string_const(\""
-            + descriptor_->default_value_string() + "\"";
-          if (descriptor_->type() == FieldDescriptor::TYPE_BYTES)
-            variables_["default"] += ", " + SimpleItoa(
-              descriptor_->default_value_string().length());
-          variables_["default"] += ")";
+            + StringReplace(CEscape(descriptor_->default_value_string()),
+              "?", "\\?", true)
+            + "\")";
           break;
         default:
           return;
-- 
2.43.0


From e84728f233f16b990627ef0e67f66a7987cc4e8f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 41/52] fix: generate valid literals for special floating-point
 default values

---
 src/generator/field.cc | 27 +++++++++++++++++++++++----
 src/generator/file.cc  |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 5845655..bc705f1 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -67,6 +67,25 @@ namespace protobluff {
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
+  /*!
+   * Convert the textual representation of a number to a floating-point literal.
+   *
+   * \param[in] value Textual representation
+   * \return          Floating-point literal
+   */
+  static string
+  FloatLiteral(const string &value) {
+    if (value == "inf" || value == "-inf")
+      return StringReplace(value, "inf", "INFINITY", false);
+    if (value == "nan" || value == "-nan")
+      return "NAN";
+
+    /* Integers would drop the sign of negative zero */
+    return value.find_first_of(".e") == string::npos
+      ? value + ".0"
+      : value;
+  }
+
   /*!
    * Create a field generator.
    *
@@ -206,12 +225,12 @@ namespace protobluff {
             descriptor_->default_value_uint64()) + "ULL";
           break;
         case FieldDescriptor::CPPTYPE_FLOAT:
-          variables_["default"] = SimpleFtoa(
-            descriptor_->default_value_float());
+          variables_["default"] = FloatLiteral(SimpleFtoa(
+            descriptor_->default_value_float()));
           break;
         case FieldDescriptor::CPPTYPE_DOUBLE:
-          variables_["default"] = SimpleDtoa(
-            descriptor_->default_value_double());
+          variables_["default"] = FloatLiteral(SimpleDtoa(
+            descriptor_->default_value_double()));
           break;
         case FieldDescriptor::CPPTYPE_BOOL:
           variables_["default"] =
diff --git a/src/generator/file.cc b/src/generator/file.cc
index 2fdf0f4..b549e8c 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -295,6 +295,7 @@ namespace protobluff {
 
     /* Generate library includes */
     printer->Print(variables_,
+      "#include <math.h>\n"
       "#include <protobluff/descriptor.h>\n"
       "\n");
 
-- 
2.43.0


From 453293b06727d594e3dfc055864139fa6a614a98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 42/52] fix: print floats with enough digits to tell them apart

---
 src/generator/strutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/strutil.cc b/src/generator/strutil.cc
index 31fca61..8bb3d5e 100644
--- a/src/generator/strutil.cc
+++ b/src/generator/strutil.cc
@@ -1115,7 +1115,7 @@ char* FloatToBuffer(float value, char* buffer) {
   float parsed_value;
   if (!safe_strtof(buffer, &parsed_value) || parsed_value != value) {
     int snprintf_result =
-      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+2, value);
+      snprintf(buffer, kFloatToBufferSize, "%.*g", FLT_DIG+3, value);
 
     // Should never overflow; see above.
     GOOGLE_DCHECK(snprintf_result > 0 && snprintf_result < kFloatToBufferSize);
-- 
2.43.0


From e0a7daaa29504ed6b292c40b31bbe2210d8598de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 43/52] fix: generate a valid literal for the minimum of 64-bit
 integers

---
 src/generator/field.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index bc705f1..74b98fa 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -21,6 +21,7 @@
  */
 
 #include <cassert>
+#include <cstdint>
 #include <iostream>
 #include <map>
 #include <string>
@@ -213,8 +214,10 @@ namespace protobluff {
             descriptor_->default_value_int32());
           break;
         case FieldDescriptor::CPPTYPE_INT64:
-          variables_["default"] = SimpleItoa(
-            descriptor_->default_value_int64()) + "LL";
+          variables_["default"] =
+            descriptor_->default_value_int64() > INT64_MIN
+              ? SimpleItoa(descriptor_->default_value_int64()) + "LL"
+              : SimpleItoa(INT64_MIN + 1) + "LL - 1";
           break;
         case FieldDescriptor::CPPTYPE_UINT32:
           variables_["default"] = SimpleItoa(
-- 
2.43.0


From da83f12eb29a5f929fda0b30442d860bd8ed3409 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 44/52] fix: replace all special characters in header guards

---
 src/generator/file.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index b549e8c..70c36c3 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -111,9 +111,10 @@ namespace protobluff {
       ? descriptor_->package() : "-";
 
     /* Extract and prepare guard name */
-    variables_["guard"] = StringReplace(
-      StripSuffixString(descriptor_->name(), ".proto"),
-    ".", "_", true);
+    variables_["guard"] = StripSuffixString(descriptor_->name(), ".proto");
+    for (size_t c = 0; c < variables_["guard"].size(); c++)
+      if (!isalnum((unsigned char)variables_["guard"][c]))
+        variables_["guard"][c] = '_';
     UpperString(&(variables_["guard"]));
 
     /* Prepare current runtime version */
-- 
2.43.0


From 9f7131290b04ceb6ba192d86844bb659e7b3f4c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 45/52] fix: generate default values of extensions if there are
 no others

---
 src/generator/message.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/message.cc b/src/generator/message.cc
index 275316e..a7c2eb2 100644
--- a/src/generator/message.cc
+++ b/src/generator/message.cc
@@ -409,6 +409,11 @@ namespace protobluff {
       if (fields_[f]->HasDefault())
         return true;
 
+    /* Check extensions for default values */
+    for (size_t e = 0; e < extensions_.size(); e++)
+      if (extensions_[e]->HasDefaults())
+        return true;
+
     /* Check nested messages for default values */
     for (size_t n = 0; n < descriptor_->nested_type_count(); n++)
       if (nested_[n]->HasDefaults())
-- 
2.43.0


From c54d6f85f3c2d9c0cf0a83f2f7c15a0b8778dcbf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 46/52] fix: generate extensions in order of their declaration

---
 src/generator/file.cc    | 19 +++++++++++--------
 src/generator/message.cc | 18 ++++++++++--------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 70c36c3..8591e05 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -20,9 +20,9 @@
  * IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cassert>
 #include <ctime>
-#include <set>
 #include <string>
 #include <vector>
 
@@ -45,7 +45,7 @@
 
 namespace protobluff {
 
-  using ::std::set;
+  using ::std::find;
   using ::std::string;
   using ::std::unique_ptr;
   using ::std::vector;
@@ -81,14 +81,17 @@ namespace protobluff {
     for (size_t m = 0; m < descriptor_->message_type_count(); m++)
       messages_[m].reset(new Message(descriptor_->message_type(m)));
 
-    /* Build set of unique extended descriptors */
-    set<const Descriptor *> unique;
-    for (size_t e = 0; e < descriptor_->extension_count(); e++)
-      unique.insert(descriptor_->extension(e)->containing_type());
+    /* Build list of unique extended descriptors in order of declaration */
+    vector<const Descriptor *> unique;
+    for (size_t e = 0; e < descriptor_->extension_count(); e++) {
+      const Descriptor *extended = descriptor_->extension(e)->containing_type();
+      if (find(unique.begin(), unique.end(), extended) == unique.end())
+        unique.push_back(extended);
+    }
 
     /* Initialize extension generators */
-    for (set<const Descriptor *>::iterator it  = unique.begin();
-                                           it != unique.end(); ++it) {
+    for (vector<const Descriptor *>::iterator it  = unique.begin();
+                                              it != unique.end(); ++it) {
       Extension *extension = new Extension(*it);
       for (size_t e = 0; e < descriptor_->extension_count(); e++)
         if (descriptor_->extension(e)->containing_type() == *it)
diff --git a/src/generator/message.cc b/src/generator/message.cc
index a7c2eb2..42ccafc 100644
--- a/src/generator/message.cc
+++ b/src/generator/message.cc
@@ -22,7 +22,6 @@
 
 #include <algorithm>
 #include <cassert>
-#include <set>
 #include <vector>
 
 #include <google/protobuf/descriptor.h>
@@ -42,7 +41,7 @@
 
 namespace protobluff {
 
-  using ::std::set;
+  using ::std::find;
   using ::std::sort;
   using ::std::unique_ptr;
   using ::std::vector;
@@ -90,14 +89,17 @@ namespace protobluff {
     for (size_t n = 0; n < descriptor_->nested_type_count(); n++)
       nested_[n].reset(new Message(descriptor_->nested_type(n)));
 
-    /* Build set of unique extended descriptors */
-    set<const Descriptor *> unique;
-    for (size_t e = 0; e < descriptor_->extension_count(); e++)
-      unique.insert(descriptor_->extension(e)->containing_type());
+    /* Build list of unique extended descriptors in order of declaration */
+    vector<const Descriptor *> unique;
+    for (size_t e = 0; e < descriptor_->extension_count(); e++) {
+      const Descriptor *extended = descriptor_->extension(e)->containing_type();
+      if (find(unique.begin(), unique.end(), extended) == unique.end())
+        unique.push_back(extended);
+    }
 
     /* Initialize extension generators */
-    for (set<const Descriptor *>::iterator it  = unique.begin();
-                                           it != unique.end(); ++it) {
+    for (vector<const Descriptor *>::iterator it  = unique.begin();
+                                              it != unique.end(); ++it) {
       Extension *extension = new Extension(*it, descriptor_);
       for (size_t e = 0; e < descriptor_->extension_count(); e++)
         if (descriptor_->extension(e)->containing_type() == *it)
-- 
2.43.0


From 8616078ca38b52855559035ff6133cf89b70db46 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 47/52] fix: don't overflow signed integers when printing
 numbers

---
 src/generator/strutil.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/strutil.cc b/src/generator/strutil.cc
index 8bb3d5e..1cd1741 100644
--- a/src/generator/strutil.cc
+++ b/src/generator/strutil.cc
@@ -770,7 +770,7 @@ static const char two_ASCII_digits[100][2] = {
 };
 
 char* FastUInt32ToBufferLeft(uint32 u, char* buffer) {
-  int digits;
+  uint32 digits;
   const char *ASCII_digits = NULL;
   // The idea of this implementation is to trim the number of divides to as few
   // as possible by using multiplication and subtraction rather than mod (%),
@@ -855,7 +855,7 @@ char* FastInt32ToBufferLeft(int32 i, char* buffer) {
   uint32 u = i;
   if (i < 0) {
     *buffer++ = '-';
-    u = -i;
+    u = 0 - u;
   }
   return FastUInt32ToBufferLeft(u, buffer);
 }
@@ -906,7 +906,7 @@ char* FastInt64ToBufferLeft(int64 i, char* buffer) {
   uint64 u = i;
   if (i < 0) {
     *buffer++ = '-';
-    u = -i;
+    u = 0 - u;
   }
   return FastUInt64ToBufferLeft(u, buffer);
 }
-- 
2.43.0


From f5ea4cd6f584279c7b59be0beb4e863f2a303698 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 48/52] fix: header guards of files starting with a digit

---
 src/generator/file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 8591e05..5fbbefb 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -120,6 +120,10 @@ namespace protobluff {
         variables_["guard"][c] = '_';
     UpperString(&(variables_["guard"]));
 
+    /* Identifiers must not start with a digit */
+    if (isdigit((unsigned char)variables_["guard"][0]))
+      variables_["guard"] = "_" + variables_["guard"];
+
     /* Prepare current runtime version */
     variables_["version"] = SimpleItoa(PB_VERSION);
 
-- 
2.43.0


From f8917038c291efe7c49a0b3e88f282b242ce736a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 49/52] fix: report a failed allocation as such when a field
 cannot be created

---
 src/message/message.c | 10 ++++++----
 src/message/nested.c  |  6 ++++--
 src/message/part.c    | 22 +++++++++++++++-------
 src/message/part.h    |  3 ++-
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/message/message.c b/src/message/message.c
index 079316b..8483052 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -325,7 +325,8 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
   /* Create field and write value */
   if (pb_field_descriptor_type(descriptor) != PB_TYPE_MESSAGE) {
     pb_field_t field = pb_field_create_without_default(message, tag);
-    error = pb_field_put(&field, value);
+    if (likely_(!(error = pb_field_error(&field))))
+      error = pb_field_put(&field, value);
     pb_field_destroy(&field);
 
   /* Write submessage to message */
@@ -339,9 +340,10 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
     /* Write raw data */
     } else {
       pb_part_t part = pb_part_create(message, tag);
-      error = pb_part_write(&part, pb_journal_data_from(
-        pb_message_journal(&submessage), pb_message_start(&submessage)),
-          pb_message_size(&submessage));
+      if (likely_(!(error = pb_part_error(&part))))
+        error = pb_part_write(&part, pb_journal_data_from(
+          pb_message_journal(&submessage), pb_message_start(&submessage)),
+            pb_message_size(&submessage));
       pb_part_destroy(&part);
     }
     pb_message_destroy(&submessage);
diff --git a/src/message/nested.c b/src/message/nested.c
index 4ab9938..6b4e711 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -194,12 +194,14 @@ pb_message_nested_put(
     const pb_tag_t tags[], size_t size,
     const void *value) {
   assert(message && tags && size > 1 && value);
-  if (unlikely_(pb_message_valid(message) && !pb_descriptor_field_by_tags(
+  if (unlikely_(!pb_message_valid(message) || !pb_descriptor_field_by_tags(
       pb_message_descriptor(message), tags, size)))
     return PB_ERROR_INVALID;
   pb_message_t submessage =
     pb_message_create_nested(message, tags, --size);
-  pb_error_t error = pb_message_put(&submessage, tags[size], value);
+  pb_error_t error = pb_message_error(&submessage);
+  if (likely_(!error))
+    error = pb_message_put(&submessage, tags[size], value);
   pb_message_destroy(&submessage);
   return error;
 }
diff --git a/src/message/part.c b/src/message/part.c
index fcb7b3c..f0b99e3 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -250,6 +250,7 @@ static void
 init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
   assert(part && tag);
   assert(pb_part_aligned(part));
+  pb_error_t error = PB_ERROR_NONE;
   do {
 
     /* Write tag to temporary buffer */
@@ -268,7 +269,7 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
     }
 
     /* Write data to journal and update offsets */
-    pb_error_t error = pb_journal_write(part->journal,
+    error = pb_journal_write(part->journal,
       part->offset.start + part->offset.diff.origin,
       part->offset.start,  part->offset.end, data, size);
     if (likely_(!error)) {
@@ -280,14 +281,16 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
       part->offset.diff.length -= part->offset.start;
 
       /* Recursive length prefix update of parent messages */
-      if (!adjust(part, size) && (
-          pb_part_aligned(part) || !pb_part_align(part)))
+      if (!(error = adjust(part, size)) && (
+          pb_part_aligned(part) || !(error = pb_part_align(part))))
         return;
     }                                                      /* LCOV_EXCL_LINE */
   } while (0);                                             /* LCOV_EXCL_LINE */
 
   /* Yes. You pulled a Pobert */
   pb_part_invalidate(part);                                /* LCOV_EXCL_LINE */
+  if (error == PB_ERROR_ALLOC)                             /* LCOV_EXCL_LINE */
+    part->version |= PB_PART_ALLOC;                        /* LCOV_EXCL_LINE */
 }
 
 /* ----------------------------------------------------------------------------
@@ -349,6 +352,7 @@ init(pb_part_t *part, pb_wiretype_t wiretype, pb_tag_t tag) {
 extern pb_part_t
 pb_part_create(pb_message_t *message, pb_tag_t tag) {
   assert(message && tag);
+  pb_part_t invalid = pb_part_create_invalid();
   do {
     if (!pb_message_valid(message) || pb_message_align(message))
       break;
@@ -395,6 +399,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
+          if (error == PB_ERROR_ALLOC)
+            invalid.version |= PB_PART_ALLOC;              /* LCOV_EXCL_LINE */
           if (error || pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
         }
@@ -451,7 +457,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_destroy(&temp);
     pb_cursor_destroy(&cursor);
   } while (0);
-  return pb_part_create_invalid();
+  return invalid;
 }
 
 /*!
@@ -530,9 +536,11 @@ pb_part_destroy(pb_part_t *part) {
 extern pb_error_t
 pb_part_error(const pb_part_t *part) {
   assert(part);
-  return part->version & PB_PART_INVALID
-    ? PB_ERROR_INVALID
-    : PB_ERROR_NONE;
+  if (likely_(!(part->version & PB_PART_INVALID)))
+    return PB_ERROR_NONE;
+  return part->version != SIZE_MAX && part->version & PB_PART_ALLOC
+    ? PB_ERROR_ALLOC
+    : PB_ERROR_INVALID;
 }
 
 /*!
diff --git a/src/message/part.h b/src/message/part.h
index 649efab..6df47fe 100644
--- a/src/message/part.h
+++ b/src/message/part.h
@@ -80,6 +80,7 @@ pb_part_clear(
  * ------------------------------------------------------------------------- */
 
 #define PB_PART_INVALID (1ULL << 63)   /*!< Invalidation marker */
+#define PB_PART_ALLOC   (1ULL << 62)   /*!< Allocation failure marker */
 
 /* ----------------------------------------------------------------------------
  * Inline functions
@@ -133,7 +134,7 @@ pb_part_journal(pb_part_t *part) {
 PB_INLINE pb_version_t
 pb_part_version(const pb_part_t *part) {
   assert(part);
-  return part->version & ~PB_PART_INVALID;
+  return part->version & ~(PB_PART_INVALID | PB_PART_ALLOC);
 }
 
 /*!
-- 
2.43.0


From 89cddf85df8ab467191943a4aed4be413be57c47 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 50/52] fix: pb_string_init_empty ran into an assertion

---
 include/protobluff/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index c5719ff..422258d 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -52,7 +52,7 @@ typedef struct pb_string_t {
  */
 PB_INLINE pb_string_t
 pb_string_init(uint8_t data[], size_t size) {
-  assert(data);
+  assert(data || !size);
   pb_string_t string = {
     .data = data,
     .size = size
-- 
2.43.0


From e8d5faf9317001f63793d37c304fa982ca1d3fb9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 51/52] fix: mark path accessors of deprecated enum values as
 deprecated

---
 src/generator/field.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 74b98fa..75a4817 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -761,6 +761,11 @@ namespace protobluff {
           /* Extract enum value signature */
           enum_variables["enum.signature"] = value->name();
 
+          /* Emit warning if enum value is deprecated */
+          if (descriptor->options().deprecated() ||
+              value->options().deprecated())
+            enum_variables["deprecated"] = "PB_DEPRECATED\n";
+
           /* Generate accessors for enum value */
           printer->Print(enum_variables,
             "/* `signature` : has(`enum.signature`) */\n"
-- 
2.43.0


From b2a4812be9def5849d811339751da367b9036733 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 52/52] fix: validator exhausts the stack on messages with many
 fields that are nested

---
 src/util/validator.c | 52 +++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index 3945de6..abc3684 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -24,6 +24,7 @@
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "core/common.h"
 #include "core/decoder.h"
@@ -51,8 +52,8 @@ check(
  * ------------------------------------------------------------------------- */
 
 typedef struct pb_validator_tags_t {
-  pb_tag_t *data;                      /*!< Tags */
-  size_t size;                         /*!< Tag count */
+  const pb_descriptor_t *descriptor;   /*!< Descriptor */
+  uint8_t *data;                       /*!< Bitmap of fields that occurred */
   size_t depth;                        /*!< Nesting depth */
 } pb_validator_tags_t;
 
@@ -61,7 +62,7 @@ typedef struct pb_validator_tags_t {
  * ------------------------------------------------------------------------- */
 
 /*!
- * Field handler that counts occurrences.
+ * Field handler that records occurrences of required fields.
  *
  * \param[in]     descriptor Field descriptor
  * \param[in]     value      Pointer holding value
@@ -73,13 +74,15 @@ handler(
   assert(descriptor && value && user);
   pb_validator_tags_t *tags = user;
 
-  /* Count field occurrence */
-  int miss = 1;
-  for (size_t t = 0; miss && t < tags->size; ++t)
-    if (tags->data[t] == pb_field_descriptor_tag(descriptor))
-      miss = 0;
-  if (miss)
-    tags->data[tags->size++] = pb_field_descriptor_tag(descriptor);
+  /* Record occurrence of required field */
+  if (pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED) {
+    size_t f = 0;
+    for (const pb_descriptor_t *base = tags->descriptor; base;
+        base = pb_descriptor_extension(base))
+      for (size_t t = 0; t < pb_descriptor_size(base); ++t, ++f)
+        if (&(base->field.data[t]) == descriptor)
+          tags->data[f / 8] |= 1 << (f % 8);
+  }
 
   /* In case of submessage, perform recursive check */
   return pb_field_descriptor_type(descriptor) == PB_TYPE_MESSAGE
@@ -92,10 +95,11 @@ handler(
  * ------------------------------------------------------------------------- */
 
 /*!
- * Decode a buffer and count field occurrences.
+ * Decode a buffer and check for required fields.
  *
  * Submessages are checked recursively, so messages that exceed the maximum
- * nesting depth are rejected in order not to exhaust the stack.
+ * nesting depth are rejected in order not to exhaust the stack. For the same
+ * reason, no more than a single bit is reserved for every field.
  *
  * \param[in] decoder Decoder
  * \param[in] depth   Nesting depth
@@ -114,17 +118,19 @@ check(const pb_decoder_t *decoder, size_t depth) {
       descriptor; descriptor = pb_descriptor_extension(descriptor))
     size += pb_descriptor_size(descriptor);
 
-  /* Initialize occurrence counter */
+  /* Initialize bitmap */
   pb_validator_tags_t tags = {
-    .data  = alloca(sizeof(pb_tag_t) * size),
-    .size  = 0,
-    .depth = depth
+    .descriptor = pb_decoder_descriptor(decoder),
+    .data       = alloca(size / 8 + 1),
+    .depth      = depth
   };
+  memset(tags.data, 0, size / 8 + 1);
 
-  /* Count occurrences using the given decoder */
+  /* Record occurrences using the given decoder */
   pb_error_t error = pb_decoder_decode(decoder, handler, &tags);
 
   /* Check for absent required fields, including extensions */
+  size_t f = 0;
   for (const pb_descriptor_t *base = pb_decoder_descriptor(decoder);
       base && likely_(!error); base = pb_descriptor_extension(base)) {
     pb_descriptor_iter_t it = pb_descriptor_iter_create(base);
@@ -132,14 +138,10 @@ check(const pb_decoder_t *decoder, size_t depth) {
       do {
         const pb_field_descriptor_t *descriptor =
           pb_descriptor_iter_current(&it);
-        if (pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED) {
-          int miss = 1;
-          for (size_t t = 0; miss && t < tags.size; ++t)
-            if (tags.data[t] == pb_field_descriptor_tag(descriptor))
-              miss = 0;
-          if (miss)
-            error = PB_ERROR_ABSENT;
-        }
+        if (pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED &&
+            !(tags.data[f / 8] & (1 << (f % 8))))
+          error = PB_ERROR_ABSENT;
+        f++;
       } while (!error && pb_descriptor_iter_next(&it));
     }
     pb_descriptor_iter_destroy(&it);
-- 
2.43.0

