/* Tables describing generated code, emitted by emit.cc for every case. */
#ifndef GEN_TAB_H
#define GEN_TAB_H
#include <protobluff.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct { const char *name; pb_descriptor_t *descriptor; } g_message;
typedef struct { const char *name; const pb_enum_descriptor_t *descriptor; } g_enum;
typedef struct { const char *name; const pb_oneof_descriptor_t *descriptor; } g_oneof;
typedef struct { const char *name; long long value; } g_const;

extern const g_message g_messages[];
extern const g_enum g_enums[];
extern const g_oneof g_oneofs[];
extern const g_const g_tags[], g_values[];      /* field tags, enum values */

/* One call of a generated function: arguments and results */
typedef struct {
  pb_message_t *message;
  pb_journal_t *journal;
  pb_encoder_t *encoder;
  pb_decoder_t *decoder;
  pb_allocator_t *allocator;
  const pb_buffer_t *buffer;
  pb_decoder_handler_f handler;
  void *user;
  const void *in;
  size_t size;
  void *out;
  int result;
  pb_error_t error;
  pb_tag_t tag;
  pb_message_t made;
  pb_cursor_t cursor;
  pb_encoder_t made_encoder;
  pb_decoder_t made_decoder;
} g_call;

enum { G_HAS, G_GET, G_PUT, G_ERASE, G_HAS_VALUE, G_PUT_VALUE, G_CREATE, G_CURSOR,
       G_CASE, G_ENCODE, G_ENCODE_VALUE };

typedef struct {
  const char *message;          /* full name of the type it operates on */
  const char *name;             /* name of the generated function */
  int op;
  size_t size;                  /* path of the field */
  const pb_tag_t *tags;
  pb_enum_t number;             /* for variants with a fixed enum value */
  const char *what;             /* full name of the field or oneof */
  int extension;                /* whether the field is an extension */
  void (*call)(g_call *);
} g_accessor;

typedef struct {
  const char *name;             /* full name of the message type */
  int lite;
  void (*create)(g_call *), (*destroy)(g_call *);
  void (*encoder_create)(g_call *), (*encoder_create_with)(g_call *),
       (*encoder_destroy)(g_call *);
  void (*decoder_create)(g_call *), (*decode)(g_call *), (*decoder_destroy)(g_call *);
} g_class;

extern const g_accessor g_accessors[];
extern const g_class g_classes[];

#ifdef __cplusplus
}
#endif
#endif
