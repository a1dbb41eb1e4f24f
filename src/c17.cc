// C17: invalid and destroyed objects, undeclared fields: errors, no effects.
#include "session.hh"
#include "alloc.hh"
extern "C" {
#include "core/buffer.h"
#include "core/decoder.h"
#include "core/encoder.h"
#include "core/stream.h"
#include "message/buffer.h"
#include "message/journal.h"
#include "message/field.h"
#include "message/message.h"
#include "message/oneof.h"
#include "util/validator.h"
}
using namespace session;

namespace {

void want(const char *key, bool ok, const char *what, long got) {
  if (!ok) violate(key, "%s: result %ld", what, got);
}
#define IS_INVALID(call) do { pb_error_t e_ = (call); want("accepted", e_ == PB_ERROR_INVALID, #call, e_); mon::count("invalid-calls"); } while (0)
#define IS_ERROR(call) do { pb_error_t e_ = (call); want("accepted", e_ != PB_ERROR_NONE, #call, e_); mon::count("invalid-calls"); } while (0)
#define IS_ZERO(call) do { long e_ = (long)(call); want("answered", e_ == 0, #call, e_); mon::count("invalid-calls"); } while (0)

pb_error_t never(const pb_field_descriptor_t *, const void *, void *) {
  violate("handler-called", "a handler is called for an invalid buffer");
}

// ---- buffers, journals, encoders, decoders, validators ------------------------

struct Core {
  Rng &r; Universe u; Ledger l; std::string content;
  uint64_t key = 0;
  explicit Core(Rng &r_) : r(r_) {
    Params p; p.messages = 2 + (int)r.below(2); p.required = r.flip();
    random_universe(r, u, p);
    GenParams g; g.max_depth = 2;
    do content = encode(*random_node(r, u, 0, g)); while (content.empty() && !r.one_in(4));
    if (content.empty()) content = std::string("\x08\x01", 2);
    op("schema %s\ncontent %s", u.show().c_str(), mon::hex(content).c_str());
  }
  const uint8_t *data() { return (const uint8_t *)content.data(); }
  void did(const char *what) {
    op("%s", what);
    key = mon::fnv(what, strlen(what), key ^ mon::fnv(content));
    mon::distinct(key);
  }

  void buffer_is_dead(pb_buffer_t &b) {
    int n = 1 + (int)r.below(10);
    for (int i = 0; i < n; i++) {
      switch (r.below(8)) {
        case 0: IS_ZERO(pb_buffer_valid(&b)); break;
        case 1: IS_ERROR(pb_buffer_error(&b)); break;
        case 2: did("write"); IS_INVALID(pb_buffer_write(&b, 0, r.below(4), data(), r.below(content.size()) + 1)); break;
        case 3: did("clear"); IS_INVALID(pb_buffer_clear(&b, 0, r.below(4))); break;
        case 4: did("grow"); want("grown", pb_buffer_grow(&b, 1 + r.below(100)) == nullptr, "pb_buffer_grow", 1); break;
        case 5: {
          did("decode");
          pb_decoder_t d = pb_decoder_create(u.desc[0], &b);
          IS_ZERO(pb_decoder_valid(&d));
          IS_ERROR(pb_decoder_error(&d));
          IS_INVALID(pb_decoder_decode(&d, never, nullptr));
          pb_decoder_destroy(&d);
          IS_INVALID(pb_decoder_decode(&d, never, nullptr));
          pb_decoder_destroy(&d);
          break;
        }
        case 6: {
          did("validate");
          pb_validator_t v = pb_validator_create(u.desc[0]);
          IS_ERROR(pb_validator_check(&v, &b));
          pb_validator_destroy(&v);
          break;
        }
        default: did("destroy"); pb_buffer_destroy(&b);
      }
      want("size", pb_buffer_size(&b) == 0 && pb_buffer_empty(&b), "an invalid buffer has content", (long)pb_buffer_size(&b));
      want("revived", !pb_buffer_valid(&b) && pb_buffer_error(&b), "an invalid buffer became valid", 0);
    }
    pb_buffer_destroy(&b);
  }
  void journal_is_dead(pb_journal_t &j) {
    int n = 1 + (int)r.below(8);
    for (int i = 0; i < n; i++) {
      switch (r.below(6)) {
        case 0: IS_ZERO(pb_journal_valid(&j)); IS_ERROR(pb_journal_error(&j)); break;
        case 1: did("journal write"); IS_INVALID(pb_journal_write(&j, 0, 0, r.below(3), data(), 1 + r.below(content.size()))); break;
        case 2: did("journal clear"); IS_INVALID(pb_journal_clear(&j, 0, 0, r.below(3))); break;
        case 3: {
          did("message on journal");
          pb_message_t m = pb_message_create(u.desc[0], &j);
          IS_ZERO(pb_message_valid(&m)); IS_ERROR(pb_message_error(&m));
          auto &fs = u.msgs[0].fields;
          if (!fs.empty()) {
            const FieldDef &f = fs[r.below(fs.size())];
            Native nv; to_native(field_val(r, u, f), nv);
            IS_ZERO(pb_message_has(&m, f.tag));
            if (f.type != PB_TYPE_MESSAGE) IS_INVALID(pb_message_put(&m, f.tag, nv.b));
          }
          pb_message_destroy(&m);
          break;
        }
        case 4: did("journal destroy"); pb_journal_destroy(&j); break;
        default: did("journal as buffer"); { pb_buffer_t b = *pb_journal_buffer(&j); buffer_is_dead(b); }
      }
      want("size", pb_journal_size(&j) == 0 && pb_journal_empty(&j), "an invalid journal has content", (long)pb_journal_size(&j));
      want("revived", !pb_journal_valid(&j) && pb_journal_error(&j), "an invalid journal became valid", 0);
    }
    pb_journal_destroy(&j);
  }
  void encoder_is_dead(pb_encoder_t &e) {
    int n = 1 + (int)r.below(8);
    for (int i = 0; i < n; i++) {
      auto &fs = u.msgs[0].fields;
      switch (r.below(4)) {
        case 0: IS_ZERO(pb_encoder_valid(&e)); IS_ERROR(pb_encoder_error(&e)); break;
        case 1: if (!fs.empty()) {
          const FieldDef &f = fs[r.below(fs.size())];
          if (f.type == PB_TYPE_MESSAGE) break;
          Native nv; Val v = field_val(r, u, f); to_native(v, nv);
          did("encode"); IS_INVALID(pb_encoder_encode(&e, f.tag, nv.b, 1)); break;
        } break;
        case 2: {   // as a nested encoder
          const FieldDef *f = nullptr; size_t k = 0;
          for (size_t q = 0; q < u.msgs.size(); q++)
            for (auto &x : u.msgs[q].fields) if (x.type == PB_TYPE_MESSAGE && (!f || r.flip())) { f = &x; k = q; }
          if (!f) break;
          did("nested encoder");
          pb_encoder_t out = pb_encoder_create_with_allocator(&l.a, u.desc[k]);
          IS_ERROR(pb_encoder_encode(&out, f->tag, &e, 1));
          want("partial", pb_buffer_empty(pb_encoder_buffer(&out)), "a rejected call left output", 1);
          pb_encoder_destroy(&out);
          break;
        }
        default: did("encoder destroy"); pb_encoder_destroy(&e);
      }
      want("revived", !pb_encoder_valid(&e) && pb_encoder_error(&e), "an invalid encoder became valid", 0);
    }
    pb_encoder_destroy(&e);
  }
};

void core(Rng &r, uint64_t) {
  Core c(r);
  bool own = r.flip();
  switch (r.below(5)) {
    case 0: {   // failed to be created
      c.l.arm(1, r.flip());
      c.did("denied buffer");
      pb_buffer_t b = pb_buffer_create_with_allocator(&c.l.a, c.data(), c.content.size());
      c.l.disarm();
      c.buffer_is_dead(b);
      break;
    }
    case 1: {
      c.did("destroyed buffer");
      pb_buffer_t b = r.one_in(3) ? (own ? pb_buffer_create_empty_with_allocator(&c.l.a) : pb_buffer_create_empty())
        : own ? pb_buffer_create_with_allocator(&c.l.a, c.data(), c.content.size()) : pb_buffer_create(c.data(), c.content.size());
      if (r.flip() && pb_buffer_write(&b, 0, 0, c.data(), c.content.size())) violate("write", "error");
      pb_buffer_destroy(&b);
      c.l.expect_empty("destroyed buffer");
      c.buffer_is_dead(b);
      break;
    }
    case 2: {
      c.did("denied journal");
      c.l.arm(1, r.flip());
      pb_journal_t j = pb_journal_create_with_allocator(&c.l.a, c.data(), c.content.size());
      c.l.disarm();
      c.journal_is_dead(j);
      break;
    }
    case 3: {
      c.did("destroyed journal");
      pb_journal_t j = r.one_in(3) ? (own ? pb_journal_create_empty_with_allocator(&c.l.a) : pb_journal_create_empty())
        : own ? pb_journal_create_with_allocator(&c.l.a, c.data(), c.content.size()) : pb_journal_create(c.data(), c.content.size());
      if (r.flip() && pb_journal_write(&j, 0, 0, 0, c.data(), c.content.size())) violate("write", "error");
      pb_journal_destroy(&j);
      c.l.expect_empty("destroyed journal");
      c.journal_is_dead(j);
      break;
    }
    default: {
      c.did("destroyed encoder");
      pb_encoder_t e = own ? pb_encoder_create_with_allocator(&c.l.a, c.u.desc[0]) : pb_encoder_create(c.u.desc[0]);
      for (auto &f : c.u.msgs[0].fields) {
        if (f.type == PB_TYPE_MESSAGE || r.flip()) continue;
        Val v = field_val(r, c.u, f); Native nv; to_native(v, nv);
        if (pb_encoder_encode(&e, f.tag, nv.b, 1)) violate("encode", "error");
      }
      pb_encoder_destroy(&e);
      c.l.expect_empty("destroyed encoder");
      c.encoder_is_dead(e);
    }
  }
  c.l.expect_empty("after using invalid objects");
  mon::count("core-objects");
}

// ---- messages, fields, cursors, oneofs ------------------------------------------

struct Obj {
  Kind kind; const char *how;
  pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o;
  pb_error_t error() {
    switch (kind) {
      case H_MSG: return pb_message_error(&m);
      case H_FIELD: return pb_field_error(&f);
      case H_CURSOR: return pb_cursor_error(&c);
      default: return pb_oneof_error(&o);
    }
  }
  int valid() {
    switch (kind) {
      case H_MSG: return pb_message_valid(&m);
      case H_FIELD: return pb_field_valid(&f);
      case H_CURSOR: return pb_cursor_valid(&c);
      default: return pb_oneof_valid(&o);
    }
  }
  void destroy() {
    switch (kind) {
      case H_MSG: pb_message_destroy(&m); break;
      case H_FIELD: pb_field_destroy(&f); break;
      case H_CURSOR: pb_cursor_destroy(&c); break;
      default: pb_oneof_destroy(&o); break;
    }
  }
};

struct Prober {
  Session &s; Rng &r; Universe &u;
  pb_journal_t other;     // another journal, with objects that are destroyed
  explicit Prober(Session &s_) : s(s_), r(s_.r), u(s_.u) {
    GenParams g; g.max_depth = 2;
    other = make_journal(nullptr, encode(*random_node(r, u, 0, g)));
  }
  ~Prober() { pb_journal_destroy(&other); }

  pb_tag_t undeclared(const Node *n) {
    const MsgDef &d = s.def(n);
    std::vector<pb_tag_t> wire;    // tags of unknown fields that are there
    for (auto &e : n->el) if (!e->dead && e->kind == Elem::UNKNOWN && !d.find(e->tag)) wire.push_back(e->tag);
    if (!wire.empty() && r.flip()) return wire[r.below(wire.size())];
    pb_tag_t t;
    do t = r.one_in(4) ? (pb_tag_t)((1u << 29) - 1 - r.below(4)) : r.one_in(3) ? random_tag(r, true) : 1 + (pb_tag_t)r.below(r.flip() ? 30 : 1000);
    while (d.find(t));
    return t;
  }
  pb_tag_t undeclared_in(int msg) {
    pb_tag_t t;
    do t = 1 + (pb_tag_t)r.below(r.flip() ? 60 : 1000); while (u.msgs[(size_t)msg].find(t));
    return t;
  }
  // A tag path below n that leaves the schema at its last (or an earlier) element.
  bool bad_path(const Node *n, std::vector<pb_tag_t> &tags, bool last_only = false) {
    int msg = n->msg; size_t depth = r.below(4);
    tags.clear();
    for (size_t k = 0; k < depth; k++) {
      std::vector<const FieldDef *> c;
      for (auto &f : u.msgs[(size_t)msg].fields)
        if (f.type == PB_TYPE_MESSAGE && f.label != PB_LABEL_REPEATED) c.push_back(&f);
      if (c.empty()) break;
      const FieldDef *f = c[r.below(c.size())];
      tags.push_back(f->tag); msg = f->nested;
    }
    tags.push_back(tags.empty() ? undeclared(n) : undeclared_in(msg));
    if (!last_only) while (r.one_in(3)) tags.push_back(1 + (pb_tag_t)r.below(20));
    return tags.size() > 1;
  }
  static std::string show(const std::vector<pb_tag_t> &t) {
    std::string o; for (auto x : t) o += std::to_string(x) + " "; return o;
  }

  // Operations on a valid message that address undeclared fields.
  void undeclared_ops() {
    Handle *h = s.pick(H_MSG, true);
    if (!h) return;
    pb_tag_t t = undeclared(h->node);
    std::vector<pb_tag_t> path; bool nested = bad_path(h->node, path);
    alignas(16) uint8_t v[64]; memset(v, 0x5a, sizeof v);
    pb_string_t str = pb_string_init((uint8_t *)"abc", 3);
    if (r.flip()) memcpy(v, &str, sizeof str);
    op("undeclared field %u / path %s through h%d", t, show(path).c_str(), h->id);
    size_t n = path.size(); pb_tag_t *p = path.data();
    int what = (int)r.below(nested ? 16 : 8);
    switch (what) {
      case 0: IS_ZERO(pb_message_has(&h->m, t)); break;
      case 1: IS_ZERO(pb_message_match(&h->m, t, v)); break;
      case 2: IS_INVALID(pb_message_get(&h->m, t, v)); break;
      case 3: IS_INVALID(pb_message_put(&h->m, t, v)); break;
      case 4: IS_INVALID(pb_message_erase(&h->m, t)); break;
      case 5: { pb_message_t m = pb_message_create_within(&h->m, t); IS_ZERO(pb_message_valid(&m)); IS_ERROR(pb_message_error(&m)); pb_message_destroy(&m); break; }
      case 6: { pb_field_t f = pb_field_create(&h->m, t); IS_ZERO(pb_field_valid(&f)); IS_ERROR(pb_field_error(&f)); pb_field_destroy(&f); break; }
      case 7: {
        pb_cursor_t c = pb_cursor_create(&h->m, t);
        IS_ZERO(pb_cursor_valid(&c)); IS_ERROR(pb_cursor_error(&c));
        IS_ZERO(pb_cursor_next(&c)); IS_ZERO(pb_cursor_rewind(&c)); IS_ERROR(pb_cursor_error(&c));
        pb_cursor_destroy(&c); break;
      }
      case 8: IS_ZERO(pb_message_nested_has(&h->m, p, n)); break;
      case 9: IS_ZERO(pb_message_nested_match(&h->m, p, n, v)); break;
      case 10: IS_ERROR(pb_message_nested_get(&h->m, p, n, v)); break;
      case 11: IS_INVALID(pb_message_nested_put(&h->m, p, n, v)); break;
      case 12: IS_INVALID(pb_message_nested_erase(&h->m, p, n)); break;
      case 13: { pb_message_t m = pb_message_create_nested(&h->m, p, n); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m); break; }
      case 14: { pb_field_t f = pb_field_create_nested(&h->m, p, n); IS_ZERO(pb_field_valid(&f)); pb_field_destroy(&f); break; }
      default: { pb_cursor_t c = pb_cursor_create_nested(&h->m, p, n); IS_ZERO(pb_cursor_valid(&c)); pb_cursor_destroy(&c); break; }
    }
    mon::count(what < 8 ? "undeclared-fields" : "undeclared-paths");
    char k[40]; snprintf(k, sizeof k, "undeclared field, call %d", what);
    s.unchanged(k);
    mon::distinct(mon::fnv(s.last_bytes, mon::fnv(&what, sizeof what)));
  }

  // Ways to obtain an invalid object.
  bool make(Obj &x) {
    Handle *h = s.pick(H_MSG, true);
    if (!h) return false;
    pb_tag_t t = undeclared(h->node);
    std::vector<pb_tag_t> path; bool nested = bad_path(h->node, path, true);
    const FieldDef *any = s.any_field(h->node, [](const FieldDef &) { return true; });
    pb_message_t dead = pb_message_create_within(&h->m, t);
    pb_cursor_t gone = pb_cursor_create(&h->m, t);
    pb_field_t none = pb_field_create(&h->m, t);
    x.kind = (Kind)r.below(4);
    switch (x.kind) {
      case H_MSG:
        switch (r.below(7)) {
          case 0: x.m = dead; x.how = "within undeclared"; break;
          case 1: if (!nested) return false; x.m = pb_message_create_nested(&h->m, path.data(), path.size()); x.how = "undeclared path"; break;
          case 2: x.m = pb_message_create_within(&dead, any ? any->tag : t); x.how = "within invalid"; break;
          case 3: x.m = pb_message_create_from_cursor(&gone); x.how = "from invalid cursor"; break;
          case 4: x.m = pb_message_create_from_field(u.desc[0], &none); x.how = "from invalid field"; break;
          case 5: x.m = pb_message_create(u.desc[0], &other); pb_message_destroy(&x.m); x.how = "destroyed, of another journal"; break;
          default: x.m = pb_message_create(u.desc[0], &s.j); pb_message_destroy(&x.m); x.how = "destroyed";
        }
        break;
      case H_FIELD:
        switch (r.below(5)) {
          case 0: x.f = none; x.how = "undeclared"; break;
          case 1: if (!nested) return false; x.f = pb_field_create_nested(&h->m, path.data(), path.size()); x.how = "undeclared path"; break;
          case 2: x.f = pb_field_create(&dead, any ? any->tag : t); x.how = "in invalid message"; break;
          case 3: x.f = pb_field_create_from_cursor(&gone); x.how = "from invalid cursor"; break;
          default: {
            Handle *c = s.pick(H_CURSOR, true);
            if (!c || c->eom || c->cur_dead()) return false;
            x.f = pb_field_create_from_cursor(&c->c);
            if (pb_field_valid(&x.f)) pb_field_destroy(&x.f);    // else: on a message
            x.how = "destroyed or from a submessage";
          }
        }
        break;
      case H_CURSOR:
        switch (r.below(4)) {
          case 0: x.c = gone; x.how = "undeclared"; break;
          case 1: if (!nested) return false; x.c = pb_cursor_create_nested(&h->m, path.data(), path.size()); x.how = "undeclared path"; break;
          case 2: x.c = pb_cursor_create(&dead, any ? any->tag : t); x.how = "on invalid message"; break;
          default: if (!any) return false; x.c = pb_cursor_create(&h->m, any->tag); pb_cursor_destroy(&x.c); x.how = "destroyed";
        }
        break;
      default: {
        int k = -1;
        for (size_t q = 0; q < u.msgs.size(); q++) if (u.msgs[q].oneofs && (k < 0 || r.flip())) k = (int)q;
        if (k < 0) return false;
        pb_oneof_descriptor_t *od = u.odesc[(size_t)k][r.below(u.odesc[(size_t)k].size())];
        if (r.flip()) { x.o = pb_oneof_create(od, &dead); x.how = "on invalid message"; }
        else { pb_message_t m = pb_message_create(u.desc[(size_t)k], &s.j); x.o = pb_oneof_create(od, &m); pb_oneof_destroy(&x.o); pb_message_destroy(&m); x.how = "destroyed"; }
      }
    }
    s.unchanged("making an invalid object");
    return true;
  }

  // Every operation on an invalid object.
  void use(Obj &x) {
    static const char *KIND[] = {"message", "field", "cursor", "oneof"};
    op("invalid %s: %s", KIND[x.kind], x.how);
    mon::count((std::string(KIND[x.kind]) + ":" + x.how).c_str());
    int n = 2 + (int)r.below(12);
    Handle *h = s.pick(H_MSG, true);
    for (int i = 0; i < n; i++) {
      pb_error_t before = x.error();
      want("valid", before && !x.valid(), "validity and error of an invalid object", before);
      const MsgDef &d = u.msgs[r.below(u.msgs.size())];
      pb_tag_t t = d.fields.empty() || r.one_in(4) ? 1 + (pb_tag_t)r.below(40) : d.fields[r.below(d.fields.size())].tag;
      pb_tag_t path[4]; size_t np = 2 + r.below(3);
      for (auto &q : path) q = r.flip() ? t : 1 + (pb_tag_t)r.below(20);
      alignas(16) uint8_t v[64], keep[64];
      memset(v, 0x5a, sizeof v);
      if (r.flip()) { pb_string_t str = pb_string_init((uint8_t *)"abc", 3); memcpy(v, &str, sizeof str); }
      memcpy(keep, v, sizeof v);
      int what = (int)r.below(x.kind == H_MSG ? 19 : x.kind == H_FIELD ? 6 : x.kind == H_CURSOR ? 10 : 3);
      op("  call %d (tag %u)", what, t);
      switch (x.kind) {
        case H_MSG: switch (what) {
          case 0: IS_ZERO(pb_message_has(&x.m, t)); break;
          case 1: IS_ZERO(pb_message_match(&x.m, t, v)); break;
          case 2: IS_ERROR(pb_message_get(&x.m, t, v)); break;
          case 3: IS_ERROR(pb_message_put(&x.m, t, v)); break;
          case 4: (void)!pb_message_erase(&x.m, t); mon::count("invalid-calls"); break;
          case 5: (void)!pb_message_clear(&x.m); mon::count("invalid-calls"); break;
          case 6: { pb_message_t m = pb_message_create_within(&x.m, t); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m); break; }
          case 7: { pb_message_t m = pb_message_create_nested(&x.m, path, np); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m); break; }
          case 8: { pb_field_t f = pb_field_create(&x.m, t); IS_ZERO(pb_field_valid(&f)); pb_field_destroy(&f); break; }
          case 9: { pb_field_t f = pb_field_create_nested(&x.m, path, np); IS_ZERO(pb_field_valid(&f)); pb_field_destroy(&f); break; }
          case 10: { pb_cursor_t c = pb_cursor_create(&x.m, t); IS_ZERO(pb_cursor_valid(&c)); IS_ZERO(pb_cursor_next(&c)); pb_cursor_destroy(&c); break; }
          case 11: { pb_cursor_t c = pb_cursor_create_nested(&x.m, path, np); IS_ZERO(pb_cursor_valid(&c)); pb_cursor_destroy(&c); break; }
          case 12: IS_ZERO(pb_message_nested_has(&x.m, path, np)); break;
          case 13: IS_ZERO(pb_message_nested_match(&x.m, path, np, v)); break;
          case 14: IS_ERROR(pb_message_nested_get(&x.m, path, np, v)); break;
          case 15: IS_ERROR(pb_message_nested_put(&x.m, path, np, v)); break;
          case 16: (void)!pb_message_nested_erase(&x.m, path, np); mon::count("invalid-calls"); break;
          case 17: {   // as a value to be written
            if (!h || pb_message_journal(&x.m) == &s.j) break;   // asserted
            const FieldDef *f = s.any_field(h->node, [](const FieldDef &g) { return g.type == PB_TYPE_MESSAGE; });
            if (!f) break;
            IS_ERROR(pb_message_put(&h->m, f->tag, &x.m));
            mon::count("invalid-values");
            break;
          }
          default: {
            Handle *c = s.pick(H_CURSOR, true);
            if (pb_message_journal(&x.m) == &s.j || !c || c->eom || c->cur_dead() || c->elem->kind != Elem::MSG) break;
            IS_ERROR(pb_cursor_put(&c->c, &x.m));
            mon::count("invalid-values");
          }
        } break;
        case H_FIELD: switch (what) {
          case 0: IS_ZERO(pb_field_match(&x.f, v)); break;
          case 1: IS_ERROR(pb_field_get(&x.f, v)); break;
          case 2: IS_ERROR(pb_field_put(&x.f, v)); break;
          case 3: (void)!pb_field_clear(&x.f); mon::count("invalid-calls"); break;
          case 4: { pb_message_t m = pb_message_create_from_field(u.desc[0], &x.f); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m); break; }
          default: x.destroy();
        } break;
        case H_CURSOR: switch (what) {
          case 0: IS_ZERO(pb_cursor_next(&x.c)); break;
          case 1: IS_ZERO(pb_cursor_rewind(&x.c)); break;
          case 2: IS_ZERO(pb_cursor_seek(&x.c, v)); break;
          case 3: IS_ZERO(pb_cursor_match(&x.c, v)); break;
          case 4: IS_ERROR(pb_cursor_get(&x.c, v)); break;
          case 5: IS_ERROR(pb_cursor_put(&x.c, v)); break;
          case 6: (void)!pb_cursor_erase(&x.c); mon::count("invalid-calls"); break;
          case 7: { pb_message_t m = pb_message_create_from_cursor(&x.c); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m); break; }
          case 8: { pb_field_t f = pb_field_create_from_cursor(&x.c); IS_ZERO(pb_field_valid(&f)); pb_field_destroy(&f); break; }
          default: x.destroy();
        } break;
        default: switch (what) {
          case 0: IS_ZERO(pb_oneof_case(&x.o)); break;
          case 1: (void)!pb_oneof_clear(&x.o); mon::count("invalid-calls"); break;
          default: x.destroy();
        }
      }
      if (memcmp(v, keep, sizeof v)) violate("value-written", "call %d on an invalid %s (%s) wrote a value", what, KIND[x.kind], x.how);
      want("revived", x.error() != PB_ERROR_NONE && !x.valid(), "an invalid object became valid", x.error());
      char k[60]; snprintf(k, sizeof k, "invalid %s, call %d", KIND[x.kind], what);
      s.unchanged(k);
    }
    x.destroy(); x.destroy();
    s.unchanged("destroying an invalid object");
    uint64_t k = mon::fnv(x.how, strlen(x.how)) + (uint64_t)x.kind;
    mon::distinct(mon::fnv(s.last_bytes, k));
  }

  // Handles whose element was removed: the first use tells, then they are invalid.
  void gone() {
    std::vector<Handle *> c;
    for (auto &h : s.hs) if (h->dead()) c.push_back(h.get());
    if (c.empty()) return;
    Handle *h = c[r.below(c.size())];
    Obj x; x.kind = h->kind; x.how = "removed"; x.m = h->m; x.f = h->f; x.c = h->c; x.o = h->o;
    Native v;
    switch (x.kind) {
      case H_MSG: {
        const MsgDef &d = s.def(h->node);
        if (d.fields.empty()) return;
        const FieldDef &f = d.fields[r.below(d.fields.size())];
        if (r.flip()) { pb_message_t m = pb_message_copy(&x.m); (void)!pb_message_clear(&m); pb_message_destroy(&m); s.unchanged("clear of a removed message"); }
        IS_ZERO(pb_message_has(&x.m, f.tag));
        // Reads go through copies, so that the message itself may not know yet.
        pb_error_t e = f.type == PB_TYPE_MESSAGE ? PB_ERROR_INVALID : pb_message_put(&x.m, f.tag, v.b);
        want("removed-accepted", e == PB_ERROR_INVALID, "write to a removed message", e);
        if (!x.error()) return;
        break;
      }
      case H_FIELD: IS_INVALID(pb_field_get(&x.f, v.b)); break;
      case H_CURSOR: IS_ZERO(pb_cursor_next(&x.c)); break;
      default: IS_ZERO(pb_oneof_case(&x.o)); break;
    }
    s.unchanged("first use of a removed object");
    mon::count("removed-objects");
    use(x);
    op("(drop h%d)", h->id);
    s.drop(h);
  }

  // Cursors past the last element.
  void ended() {
    Handle *h = s.pick(H_MSG, true);
    const FieldDef *f = h ? s.any_field(h->node, [](const FieldDef &) { return true; }) : nullptr;
    if (!f) return;
    pb_cursor_t c = pb_cursor_create(&h->m, f->tag);
    op("cursor over %u of h%d to its end", f->tag, h->id);
    int n = 0;
    while (pb_cursor_valid(&c) && pb_cursor_next(&c)) if (n++ > 5000) violate("endless", "cursor does not end");
    Val val = field_val(r, u, *f); Native v; to_native(val, v);
    for (int i = 0; i < 8; i++) {
      want("ended", pb_cursor_error(&c) == PB_ERROR_EOM && !pb_cursor_valid(&c), "error of a cursor past the end", pb_cursor_error(&c));
      switch (r.below(7)) {
        case 0: IS_ZERO(pb_cursor_next(&c)); break;
        case 1: IS_ZERO(pb_cursor_seek(&c, v.b)); break;
        case 2: IS_ZERO(pb_cursor_match(&c, v.b)); break;
        case 3: { Native o; IS_INVALID(pb_cursor_get(&c, o.b)); break; }
        case 4: IS_INVALID(pb_cursor_put(&c, v.b)); break;
        case 5: IS_INVALID(pb_cursor_erase(&c)); break;
        default: {
          pb_message_t m = pb_message_create_from_cursor(&c); IS_ZERO(pb_message_valid(&m)); pb_message_destroy(&m);
          pb_field_t x = pb_field_create_from_cursor(&c); IS_ZERO(pb_field_valid(&x)); pb_field_destroy(&x);
        }
      }
      s.unchanged("use of a cursor past the end");
    }
    mon::count("ended-cursors");
    if (r.flip()) pb_cursor_destroy(&c);
    pb_cursor_destroy(&c);
  }

  // A submessage removed from another journal, which nobody told the handle yet.
  void stale_value() {
    Handle *h = s.pick(H_MSG, true);
    if (!h) return;
    const FieldDef *f = s.any_field(h->node, [](const FieldDef &g) { return g.type == PB_TYPE_MESSAGE; });
    if (!f) return;
    pb_journal_t j = pb_journal_create_empty();
    for (size_t k = 0; k < u.msgs.size(); k++) for (auto &pf : u.msgs[k].fields) {
      if (pf.type != PB_TYPE_MESSAGE || pf.nested != f->nested) continue;
      pb_message_t m = pb_message_create(u.desc[k], &j);
      pb_message_t sub = pb_message_create_within(&m, pf.tag);
      for (auto &x : u.msgs[(size_t)pf.nested].fields) if (x.type != PB_TYPE_MESSAGE && x.label != PB_LABEL_REPEATED && r.flip()) {
        Val v = field_val(r, u, x); Native nv; to_native(v, nv);
        if (pb_message_put(&sub, x.tag, nv.b)) violate("refused", "put fails");
      }
      pb_message_t copy = pb_message_copy(&sub);
      if (r.flip() ? pb_message_erase(&m, pf.tag) : pb_message_clear(&copy)) violate("refused", "erase fails");
      op("put of a message removed elsewhere to %u of h%d", f->tag, h->id);
      Handle *c = s.pick(H_CURSOR, true);
      if (c && !c->eom && !c->cur_dead() && c->elem->kind == Elem::MSG && c->elem->f->nested == f->nested && r.flip()) IS_ERROR(pb_cursor_put(&c->c, &sub));
      else IS_ERROR(pb_message_put(&h->m, f->tag, &sub));
      mon::count("stale-values");
      pb_message_destroy(&copy); pb_message_destroy(&sub); pb_message_destroy(&m);
      k = u.msgs.size() - 1;
      break;
    }
    pb_journal_destroy(&j);
    s.unchanged("put of a message removed elsewhere");
  }
};

void handles(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 7;
  Universe u; random_universe(r, u, p);
  GenParams g; g.max_depth = 1 + (int)r.below(3); g.big = r.one_in(20); g.empty_runs = r.one_in(4);
  Weights w; w.stale = 12; w.erase = 9; w.clear_msg = 3; w.field_clear = 5; w.cursor_erase = 7; w.audit = 1; w.read = 2;
  Session s(r, u, g, w);
  Prober q(s);
  int n = 15 + (int)r.below(35);
  for (int i = 0; i < n; i++) {
    switch (r.below(7)) {
      case 4: q.stale_value(); break;
      case 0: q.undeclared_ops(); break;
      case 1: { Obj x; if (q.make(x)) q.use(x); break; }
      case 2: q.gone(); break;
      case 3: q.ended(); break;
      default: s.step();
    }
  }
  s.run(1);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"core", core, 6000, 300000}, {"handles", handles, 5000, 250000}});
}
