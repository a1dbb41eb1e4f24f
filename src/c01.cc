// C01: arbitrary bytes through the decoder, validator, messages, fields, cursors.
#include "model.hh"
#include "guard.hh"
#include "alloc.hh"
extern "C" {
#include "core/decoder.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/oneof.h"
#include "util/validator.h"
}
using namespace model;
using mon::op; using mon::violate;

namespace {

// ---- hostile inputs ---------------------------------------------------------------

void bad_varint(Rng &r, std::string &o) {
  switch (r.below(7)) {
    case 0: put_varint(o, r.below(20)); break;
    case 1: put_varint(o, interesting_u64(r)); break;
    case 2: put_varint(o, 0xffffffffull - r.below(40)); break;
    case 3: o += std::string(r.below(13), (char)(0x80 | r.below(128))); o += (char)r.below(128); break;
    case 4: o += std::string(9, (char)0xff); o += (char)r.next(); break;
    case 5: { size_t n = r.below(10); uint64_t v = r.below(300); for (size_t i = 0; i < n; i++) { o += (char)(v | 0x80); v >>= 7; } o += (char)(v & 127); break; }
    default: put_varint(o, 0x7fffffffull + r.below(3));
  }
}
// A grammar for almost-messages.
void almost(Rng &r, const Universe &u, int msg, std::string &o, int depth) {
  const MsgDef &d = u.msgs[(size_t)msg];
  int n = (int)r.below(depth ? 5 : 12);
  for (int i = 0; i < n; i++) {
    const FieldDef *f = d.fields.empty() || r.one_in(6) ? nullptr : &d.fields[r.below(d.fields.size())];
    uint32_t tag = f ? f->tag : r.one_in(10) ? 0 : random_tag(r, r.flip());
    int wt = f && !r.one_in(8) ? wiretype(f->type) : (int)r.below(r.one_in(4) ? 8 : 6);
    if (f && r.one_in(8)) wt = 2;
    if (r.one_in(40)) bad_varint(r, o); else put_varint(o, ((uint64_t)tag << 3) | (uint64_t)wt);
    switch (wt) {
      case 0: if (r.one_in(6)) bad_varint(r, o); else put_varint(o, interesting_u64(r)); break;
      case 1: o += std::string(r.one_in(20) ? r.below(8) : 8, (char)r.next()); break;
      case 5: o += std::string(r.one_in(20) ? r.below(4) : 4, (char)r.next()); break;
      case 2: {
        std::string b;
        if (f && f->type == PB_TYPE_MESSAGE) { if (depth < 5) almost(r, u, f->nested, b, depth + 1); }
        else if (f && wiretype(f->type) != WT_LEN) {
          int k = (int)r.below(6);
          for (int q = 0; q < k; q++) b += r.one_in(10) ? std::string(1 + r.below(11), (char)0xff) : payload(field_val(r, u, *f));
        } else b = random_string(r);
        uint64_t len = b.size();
        switch (r.below(24)) {
          case 0: len += 1 + r.below(3); break;
          case 1: len -= len ? 1 : 0; break;
          case 2: len = 0xffffffffull - r.below(60); break;
          case 3: len = interesting_u64(r); break;
          case 4: len = 0; break;
        }
        put_varint(o, len); o += b;
      }
    }
  }
}
std::string mutate(Rng &r, std::string b) {
  int n = 1 + (int)r.below(4);
  while (n--) {
    size_t at = r.below(b.size() + 1);
    switch (r.below(8)) {
      case 0: if (at < b.size()) b[at] = (char)r.next(); break;
      case 1: if (at < b.size()) b[at] = (char)((uint8_t)b[at] ^ (1u << r.below(8))); break;
      case 2: b.erase(at, r.below(4)); break;
      case 3: { std::string x; bad_varint(r, x); b.insert(at, x); break; }
      case 4: b.insert(at, b.substr(r.below(b.size() + 1), r.below(12))); break;
      case 5: b.resize(at); break;
      case 6: if (at < b.size()) b[at] = (char)(r.flip() ? 0xff : 0x80); break;
      default: if (at < b.size()) { std::string x; bad_varint(r, x); b.replace(at, 1, x); }
    }
  }
  return b;
}
std::string hostile(Rng &r, const Universe &u) {
  switch (r.below(8)) {
    case 0: { std::string b(r.below(40), '\0'); for (auto &c : b) c = (char)(r.flip() ? r.next() : r.below(24)); return b; }
    case 1: case 2: case 3: { std::string b; almost(r, u, 0, b, 0); return r.one_in(4) ? mutate(r, b) : b; }
    default: {
      GenParams g; g.max_depth = 1 + (int)r.below(4); g.empty_runs = r.one_in(3);
      std::string b = encode(*random_node(r, u, 0, g));
      return r.one_in(10) ? b : mutate(r, b);
    }
  }
}

// ---- probes ---------------------------------------------------------------------------

const uint8_t *g_lo, *g_hi;    // memory values may be taken from
void string_inside(const pb_string_t &s, const FieldDef &f, const pb_field_descriptor_t *d) {
  const uint8_t *p = pb_string_data(&s); size_t n = pb_string_size(&s);
  mon::count("strings");
  if (!n) return;
  if (f.hasdef && d) {
    const pb_string_t *def = (const pb_string_t *)pb_field_descriptor_default(d);
    if (def && def->data == p && def->size == n) return;
  }
  if (p < g_lo || p > g_hi || n > (size_t)(g_hi - p))
    violate("string-outside", "field %u: a string of %zu bytes at offset %td of %td is handed out", f.tag, n, p - g_lo, g_hi - g_lo);
  volatile uint8_t x = 0;
  x = (uint8_t)(p[0] ^ p[n - 1]); (void)x;
}
void code(pb_error_t e) {
  if (e < PB_ERROR_NONE || e > PB_ERROR_EOM) violate("error-code", "undocumented error code %d", (int)e);
  char k[20]; snprintf(k, sizeof k, "error-%d", (int)e);
  mon::count(k);
}

struct Dec { const Universe *u; int msg; int depth; size_t events; };
pb_error_t on_value(const pb_field_descriptor_t *d, const void *v, void *user) {
  Dec &s = *(Dec *)user;
  s.events++;
  const FieldDef *f = s.u->msgs[(size_t)s.msg].find(pb_field_descriptor_tag(d));
  if (!f) violate("unknown-descriptor", "handler called for undeclared field %u", pb_field_descriptor_tag(d));
  if (f->type == PB_TYPE_MESSAGE) {
    if (s.depth > 60) return PB_ERROR_NONE;
    Dec t{s.u, f->nested, s.depth + 1, 0};
    pb_error_t e = pb_decoder_decode((const pb_decoder_t *)v, on_value, &t);
    s.events += t.events;
    return e;
  }
  if (wiretype(f->type) == WT_LEN) string_inside(*(const pb_string_t *)v, *f, d);
  else { volatile uint64_t x = from_native(f->type, v).u; (void)x; }
  return PB_ERROR_NONE;
}

struct Fuzz {
  Rng &r; Universe &u; size_t size;
  long budget = 4000;      // calls per case
  void take(const FieldDef &f, const pb_field_descriptor_t *d, const Native &n) {
    if (wiretype(f.type) == WT_LEN) { pb_string_t s; memcpy(&s, n.b, sizeof s); string_inside(s, f, d); }
  }
  bool step() { mon::count("calls"); return budget-- > 0; }

  // Read everything there is through a message.
  void read(pb_message_t *m, int msg, int depth) {
    const MsgDef &d = u.msgs[(size_t)msg];
    for (auto &f : d.fields) {
      if (!step()) return;
      const pb_field_descriptor_t *fd = pb_descriptor_field_by_tag(u.desc[(size_t)msg], f.tag);
      int has = pb_message_has(m, f.tag);
      Native n;
      if (f.type != PB_TYPE_MESSAGE) {
        if (f.label != PB_LABEL_REPEATED) {
          pb_error_t e = pb_message_get(m, f.tag, n.b);
          code(e);
          if (!e) take(f, fd, n);
          if (has && e == PB_ERROR_ABSENT) violate("has-but-absent", "field %u", f.tag);
        }
        Val v = field_val(r, u, f); to_native(v, n);
        if (r.one_in(4)) (void)pb_message_match(m, f.tag, n.b);
      }
      pb_cursor_t c = pb_cursor_create(m, f.tag);
      size_t stops = 0;
      if (pb_cursor_valid(&c)) do {
        if (stops++ > size + 1) violate("endless-cursor", "more stops than bytes");
        if (f.type == PB_TYPE_MESSAGE) {
          pb_message_t s = pb_message_create_from_cursor(&c);
          if (pb_message_valid(&s) && depth < 6) read(&s, f.nested, depth + 1);
          pb_message_destroy(&s);
        } else {
          pb_error_t e = pb_cursor_get(&c, n.b); code(e);
          if (!e) take(f, fd, n);
          Val v = field_val(r, u, f); to_native(v, n);
          (void)pb_cursor_match(&c, n.b);
        }
        if (r.one_in(8)) {
          pb_field_t x = pb_field_create_from_cursor(&c);
          if (f.type != PB_TYPE_MESSAGE) {
            pb_error_t e = pb_field_get(&x, n.b); code(e);
            if (!e) take(f, fd, n);
            if (f.type == PB_TYPE_BYTES && depth < 4 && r.flip()) {   // a message in a bytes field
              int k = (int)r.below(u.msgs.size());
              pb_message_t s = pb_message_create_from_field(u.desc[(size_t)k], &x);
              if (pb_message_valid(&s)) { mon::count("bytes-messages"); read(&s, k, depth + 2); }
              pb_message_destroy(&s);
            }
          }
          pb_field_destroy(&x);
        }
      } while (step() && pb_cursor_next(&c));
      code(pb_cursor_error(&c));
      mon::count("cursor-stops", stops);
      if (f.type != PB_TYPE_MESSAGE && r.one_in(4)) {
        Val v = field_val(r, u, f); to_native(v, n);
        (void)pb_cursor_rewind(&c);
        (void)pb_cursor_seek(&c, n.b);
      }
      pb_cursor_destroy(&c);
      if (f.type == PB_TYPE_MESSAGE && f.label != PB_LABEL_REPEATED)
        for (auto &g : u.msgs[(size_t)f.nested].fields) {
          if (!step()) return;
          pb_tag_t t[3] = {f.tag, g.tag, 0};
          (void)pb_message_nested_has(m, t, 2);
          if (g.type == PB_TYPE_MESSAGE || g.label == PB_LABEL_REPEATED) continue;
          pb_error_t e = pb_message_nested_get(m, t, 2, n.b); code(e);
          if (!e) take(g, pb_descriptor_field_by_tag(u.desc[(size_t)f.nested], g.tag), n);
        }
    }
    for (int o = 0; o < d.oneofs; o++) {
      pb_oneof_t x = pb_oneof_create(u.odesc[(size_t)msg][(size_t)o], m);
      pb_tag_t t = pb_oneof_case(&x);
      const FieldDef *f = t ? d.find(t) : nullptr;
      if (t && (!f || f->oneof != o)) violate("oneof-case", "case %u is no member", t);
      code(pb_oneof_error(&x));
      pb_oneof_destroy(&x);
    }
  }
};

void decode_validate(Universe &u, const Guarded &mem) {
  g_lo = mem.data; g_hi = mem.data + mem.size;
  pb_buffer_t b = mem.size ? pb_buffer_create_zero_copy(mem.data, mem.size) : pb_buffer_create_empty();
  pb_decoder_t d = pb_decoder_create(u.desc[0], &b);
  Dec s{&u, 0, 0, 0};
  pb_error_t e = pb_decoder_decode(&d, on_value, &s);
  code(e);
  mon::count(e ? "decode-rejected" : "decode-accepted");
  mon::count("decoded-values", s.events);
  pb_validator_t v = pb_validator_create(u.desc[0]);
  pb_error_t ve = pb_validator_check(&v, &b);
  code(ve);
  mon::count(ve ? "validator-rejected" : "validator-accepted");
  pb_validator_destroy(&v);
  pb_decoder_destroy(&d); pb_buffer_destroy(&b);
}

Params params(Rng &r) {
  Params p; p.messages = 1 + (int)r.below(4); p.max_fields = 3 + (int)r.below(8);
  return p;
}

void reads(Rng &r, uint64_t id) {
  Universe u; random_universe(r, u, params(r));
  op("schema %s", u.show().c_str());
  for (int i = 0; i < 6; i++) {
    std::string b = hostile(r, u);
    op("bytes %s", mon::hex(b).c_str());
    Guarded mem(b);
    decode_validate(u, mem);
    if (!b.empty()) {
      pb_journal_t j = pb_journal_create_zero_copy(mem.data, mem.size);
      pb_message_t m = pb_message_create(u.desc[0], &j);
      Fuzz f{r, u, mem.size};
      f.read(&m, 0, 0);
      pb_message_destroy(&m); pb_journal_destroy(&j);
    }
    if (mem.str() != b) violate("modified", "reading modified the bytes");
    mon::count("inputs"); mon::distinct(mon::fnv(b));
    if (id < 2) mon::sample(u.show() + " <- " + mon::hex(b));
  }
}

// ---- edits of hostile messages --------------------------------------------------------

struct H { int kind = 0; pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o; int msg = 0; const FieldDef *fd = nullptr; };

struct Edits {
  Rng &r; Universe &u; Ledger &l; pb_journal_t j; std::vector<H> hs; Fuzz fz;
  std::string sub;
  Edits(Rng &r_, Universe &u_, Ledger &l_, const std::string &b) : r(r_), u(u_), l(l_), fz{r_, u_, b.size() + 100000} {
    j = b.empty() ? pb_journal_create_empty_with_allocator(&l.a) : pb_journal_create_with_allocator(&l.a, (const uint8_t *)b.data(), b.size());
    root();
  }
  ~Edits() { for (auto &h : hs) destroy(h); pb_journal_destroy(&j); }
  void root() { H h; h.m = pb_message_create(u.desc[0], &j); push(h); }
  void destroy(H &h) {
    if (h.kind == 0) pb_message_destroy(&h.m); else if (h.kind == 1) pb_field_destroy(&h.f);
    else if (h.kind == 2) pb_cursor_destroy(&h.c); else pb_oneof_destroy(&h.o);
  }
  void push(const H &h) {
    if (hs.size() >= 10) { size_t k = 1 + r.below(hs.size() - 1); destroy(hs[k]); hs.erase(hs.begin() + (long)k); }
    hs.push_back(h);
  }
  H *pick(int kind) {
    std::vector<H *> c;
    for (auto &h : hs) if (h.kind == kind) c.push_back(&h);
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  const FieldDef *field(int msg, bool scalar, bool message) {
    std::vector<const FieldDef *> c;
    for (auto &f : u.msgs[(size_t)msg].fields)
      if (f.type == PB_TYPE_MESSAGE ? message : scalar) c.push_back(&f);
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  void memory() {
    g_lo = pb_journal_data(&j); g_hi = g_lo + pb_journal_size(&j);
    if (pb_journal_error(&j)) violate("journal", "error %d", pb_journal_error(&j));
    if (pb_journal_size(&j)) {
      auto it = l.live.find((void *)(uintptr_t)g_lo);
      if (it == l.live.end() || it->second != pb_journal_size(&j)) violate("journal-block", "the journal's block is not its size");
    }
    if (pb_journal_size(&j) > 3000000) violate("journal-grown", "the journal has %zu bytes", pb_journal_size(&j));
  }
  void take(const FieldDef &f, int msg, pb_error_t e, const Native &n) {
    code(e); memory();
    if (!e) fz.take(f, pb_descriptor_field_by_tag(u.desc[(size_t)msg], f.tag), n);
  }
  void step() {
    Native n; Val v;
    auto value = [&](const FieldDef &f) { v = field_val(r, u, f); to_native(v, n); };
    int what = (int)r.below(27);
    H *h = pick(what < 15 ? 0 : what < 18 ? 1 : what < 26 ? 2 : 3);
    if (!h) { if (what >= 15) what = 9 + (int)r.below(4); h = pick(0); if (!h) { root(); return; } }
    mon::count("edit-calls");
    switch (what) {
      case 0: case 1: { const FieldDef *f = field(h->msg, true, false); if (!f) break; value(*f);
        op("put %u %s", f->tag, v.show().c_str()); pb_error_t e = pb_message_put(&h->m, f->tag, n.b); code(e); mon::count(e ? "put-failed" : "put-done"); break; }
      case 2: { const FieldDef *f = field(h->msg, false, true); if (!f) break;
        std::string b = r.flip() ? hostile(r, u) : encode(*random_node(r, u, f->nested, GenParams(), 2));
        op("put message %u %s", f->tag, mon::hex(b).c_str());
        pb_journal_t j2 = b.empty() ? pb_journal_create_empty() : pb_journal_create((const uint8_t *)b.data(), b.size());
        pb_message_t m2 = pb_message_create(u.desc[(size_t)f->nested], &j2);
        code(pb_message_put(&h->m, f->tag, &m2));
        pb_message_destroy(&m2); pb_journal_destroy(&j2); break; }
      case 3: { const FieldDef *f = field(h->msg, true, true); if (!f) break; op("erase %u", f->tag); code(pb_message_erase(&h->m, f->tag)); break; }
      case 4: { if (h == &hs[0] || r.flip()) break; op("clear"); code(pb_message_clear(&h->m)); break; }
      case 5: { const FieldDef *f = field(h->msg, true, false); if (!f || f->label == PB_LABEL_REPEATED) break; op("get %u", f->tag);
        pb_error_t e = pb_message_get(&h->m, f->tag, n.b); take(*f, h->msg, e, n); break; }
      case 6: { const FieldDef *f = field(h->msg, true, true); if (!f) break; (void)pb_message_has(&h->m, f->tag); break; }
      case 7: case 8: {   // paths
        std::vector<pb_tag_t> t; int msg = h->msg; const FieldDef *f = nullptr;
        for (int i = 0; i < 3; i++) {
          std::vector<const FieldDef *> c;
          for (auto &x : u.msgs[(size_t)msg].fields) if (x.type == PB_TYPE_MESSAGE && x.label != PB_LABEL_REPEATED) c.push_back(&x);
          if (c.empty()) break;
          f = c[r.below(c.size())]; t.push_back(f->tag); msg = f->nested;
          if (r.flip()) break;
        }
        if (t.empty()) break;
        f = field(msg, true, false);
        if (!f) break;
        t.push_back(f->tag);
        value(*f);
        int k = (int)r.below(4);
        op("nested %d to field %u, %zu tags", k, f->tag, t.size());
        if (k == 0) code(pb_message_nested_put(&h->m, t.data(), t.size(), n.b));
        else if (k == 1) code(pb_message_nested_erase(&h->m, t.data(), t.size()));
        else if (k == 2) { H x; x.kind = 1; x.fd = f; x.msg = msg; x.f = pb_field_create_nested(&h->m, t.data(), t.size()); push(x); }
        else { H x; x.msg = msg; x.m = pb_message_create_nested(&h->m, t.data(), t.size() - 1); push(x); }
        break; }
      case 9: case 10: { const FieldDef *f = field(h->msg, true, true); if (!f) break; op("cursor over %u", f->tag);
        H x; x.kind = 2; x.fd = f; x.msg = h->msg; x.c = pb_cursor_create(&h->m, f->tag); push(x); break; }
      case 11: { const FieldDef *f = field(h->msg, false, true); if (!f) break; op("within %u", f->tag);
        H x; x.msg = f->nested; x.m = pb_message_create_within(&h->m, f->tag); push(x); break; }
      case 12: { const FieldDef *f = field(h->msg, true, false); if (!f) break; op("field %u", f->tag);
        H x; x.kind = 1; x.fd = f; x.msg = h->msg; x.f = pb_field_create(&h->m, f->tag); push(x); break; }
      case 13: { if (!u.msgs[(size_t)h->msg].oneofs) break;
        H x; x.kind = 3; x.msg = h->msg; x.o = pb_oneof_create(u.odesc[(size_t)h->msg][r.below(u.odesc[(size_t)h->msg].size())], &h->m); push(x); break; }
      case 14: { memory(); fz.budget = 60; if (pb_message_valid(&h->m)) fz.read(&h->m, h->msg, 4); break; }
      case 15: { op("field get"); pb_error_t e = pb_field_get(&h->f, n.b); take(*h->fd, h->msg, e, n); break; }
      case 16: { value(*h->fd); op("field put %u %s", h->fd->tag, v.show().c_str()); code(pb_field_put(&h->f, n.b)); break; }
      case 17: { op("field clear"); code(pb_field_clear(&h->f)); break; }
      case 18: case 19: op("next"); (void)pb_cursor_next(&h->c); break;
      case 20: op("rewind"); (void)pb_cursor_rewind(&h->c); break;
      case 21: { if (h->fd->type == PB_TYPE_MESSAGE) break; op("cursor get"); pb_error_t e = pb_cursor_get(&h->c, n.b); take(*h->fd, h->msg, e, n); break; }
      case 22: { if (h->fd->type == PB_TYPE_MESSAGE) break; value(*h->fd); op("cursor put %u %s", h->fd->tag, v.show().c_str()); code(pb_cursor_put(&h->c, n.b)); break; }
      case 23: op("cursor erase"); code(pb_cursor_erase(&h->c)); break;
      case 24: { if (h->fd->type != PB_TYPE_MESSAGE) {
          op("field from cursor");
          H x; x.kind = 1; x.fd = h->fd; x.msg = h->msg; x.f = pb_field_create_from_cursor(&h->c); push(x); }
        else { op("message from cursor"); H x; x.msg = h->fd->nested; x.m = pb_message_create_from_cursor(&h->c); push(x); }
        break; }
      case 25: { if (h->fd->type == PB_TYPE_MESSAGE) break; value(*h->fd); if (r.flip()) (void)pb_cursor_seek(&h->c, n.b); else (void)pb_cursor_match(&h->c, n.b); break; }
      default: if (r.flip()) { op("case"); (void)pb_oneof_case(&h->o); } else { op("oneof clear"); code(pb_oneof_clear(&h->o)); }
    }
    memory();
    for (auto &x : hs) switch (x.kind) {
      case 0: if (!pb_message_error(&x.m) != !!pb_message_valid(&x.m)) violate("validity", "message"); break;
      case 1: if (!pb_field_error(&x.f) != !!pb_field_valid(&x.f)) violate("validity", "field"); break;
      case 2: if (!pb_cursor_error(&x.c) != !!pb_cursor_valid(&x.c)) violate("validity", "cursor"); break;
      default: break;
    }
  }
};

void edits(Rng &r, uint64_t id) {
  Universe u; random_universe(r, u, params(r));
  std::string b = hostile(r, u);
  op("schema %s\nbytes %s", u.show().c_str(), mon::hex(b).c_str());
  Ledger l;
  {
    Edits e(r, u, l, b);
    int n = 10 + (int)r.below(50);
    uint64_t key = mon::fnv(b);
    std::string last = b;
    for (int i = 0; i < n; i++) {
      e.step();
      std::string now((const char *)pb_journal_data(&e.j), pb_journal_size(&e.j));
      if (now != last) { mon::distinct(mon::fnv(now, key)); mon::count("edits-of-hostile-bytes"); last = now; }
    }
    if (id < 2) mon::sample(u.show() + " <- " + mon::hex(b));
    Guarded mem(last);
    decode_validate(u, mem);     // whatever came out of it
  }
  l.expect_empty("after a session on hostile bytes");
  mon::count("sessions");
}

// ---- sizes: every call stays polynomial (the watchdog ends a case after 30 s) -------------

void large(Rng &r, uint64_t id) {
  Universe u; u.msgs.resize(1);
  auto &fs = u.msgs[0].fields;
  FieldDef f;
  f.name = "a"; f.tag = 1; f.type = PB_TYPE_UINT32; f.label = PB_LABEL_REPEATED; fs.push_back(f);
  f.name = "b"; f.tag = 2; f.type = PB_TYPE_STRING; f.label = PB_LABEL_OPTIONAL; fs.push_back(f);
  f.name = "c"; f.tag = 3; f.type = PB_TYPE_MESSAGE; f.nested = 0; f.label = r.flip() ? PB_LABEL_REPEATED : PB_LABEL_OPTIONAL; fs.push_back(f);
  f.name = "d"; f.tag = 4; f.nested = -1; f.type = PB_TYPE_SINT64; f.packed = true; f.label = PB_LABEL_REPEATED; fs.push_back(f);
  f.packed = false; f.label = PB_LABEL_ONEOF; f.oneof = 0;
  f.name = "e"; f.tag = 5; f.type = PB_TYPE_BOOL; fs.push_back(f);
  f.name = "f"; f.tag = 6; f.type = PB_TYPE_FIXED32; fs.push_back(f);
  f.name = "g"; f.tag = 7; f.type = PB_TYPE_MESSAGE; f.nested = 0; fs.push_back(f);
  u.msgs[0].oneofs = 1;
  u.build();
  std::string b, what;
  size_t n = 1000 + r.below(mon::opts().thorough ? 40000 : 4000);
  switch (id % 6) {
    case 0: what = "many small fields"; for (size_t i = 0; i < n; i++) { static const char *S[] = {"\x08\x01", "\x28\x01", "\x12\x01x", "\x22\x02\x01\x02", "\x1a\x02\x28\x01", "\x3a\x02\x08\x01", "\x48\x01"}; b += S[r.below(7)]; } break;
    case 1: {   // a tower of submessages, each with its exact length
      what = "tower";
      std::string x;
      for (size_t i = 0; i < n; i++) { std::string y; y += (char)(r.one_in(3) ? 0x3a : 0x1a); put_varint(y, x.size()); x = y + x; }
      b = x; break; }
    case 2: what = "lying tower"; for (size_t i = 0; i < n * 4; i++) { b += (char)0x1a; put_varint(b, 0x7fffffff - i); } break;
    case 3: { what = "packed runs"; for (size_t i = 0; i < n / 4; i++) { std::string run; for (int k = 0; k < 6; k++) put_varint(run, interesting_u64(r)); b += (char)0x22; put_varint(b, run.size()); b += run; if (r.one_in(3)) b += std::string("\x22\0", 2); } break; }
    case 4: what = "continuation bytes"; b = std::string(n * 10, (char)0xff); break;
    default: { what = "empty runs and strings"; for (size_t i = 0; i < n * 2; i++) { b += (char)(r.flip() ? 0x22 : r.flip() ? 0x12 : 0x0a); b += '\0'; } }
  }
  if (r.one_in(3)) b.resize(r.below(b.size()));
  op("%s, %zu bytes", what.c_str(), b.size());
  mon::count(("large:" + what).c_str());
  Guarded mem(b);
  decode_validate(u, mem);
  if (b.empty()) return;
  pb_journal_t z = pb_journal_create_zero_copy(mem.data, mem.size);
  pb_message_t m = pb_message_create(u.desc[0], &z);
  Fuzz fz{r, u, mem.size};
  fz.budget = 3000;
  fz.read(&m, 0, 0);
  pb_message_destroy(&m); pb_journal_destroy(&z);
  // Descend along the tower.
  Ledger l;
  {
    pb_journal_t j = pb_journal_create_with_allocator(&l.a, (const uint8_t *)b.data(), b.size());
    pb_message_t at = pb_message_create(u.desc[0], &j);
    size_t depth = 0, most = 400;
    while (depth < most) {
      pb_tag_t t = pb_message_has(&at, 3) ? 3 : pb_message_has(&at, 7) ? 7 : 0;
      if (!t) break;
      pb_cursor_t c = pb_cursor_create(&at, t);
      pb_message_t s = pb_message_create_from_cursor(&c);
      pb_cursor_destroy(&c); pb_message_destroy(&at);
      at = s; depth++;
      if (!pb_message_valid(&at)) break;
    }
    mon::count("levels", depth);
    if (pb_message_valid(&at)) {
      uint32_t x = 0xffffffff; pb_string_t s = pb_string_init((uint8_t *)"yyyyyyyyyyyyyyyyyyyyyyyy", 24);
      for (int i = 0; i < 12; i++) { code(pb_message_put(&at, 1, &x)); code(pb_message_put(&at, 2, &s)); }
      code(pb_message_put(&at, 6, &x));
      code(pb_message_erase(&at, 1));
    }
    pb_message_destroy(&at); pb_journal_destroy(&j);
  }
  l.expect_empty("after editing a large input");
  mon::count("inputs"); mon::distinct(mon::fnv(b));
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"reads", reads, 24000, 800000},
    {"edits", edits, 24000, 800000},
    {"large", large, 48, 1200},
  });
}
