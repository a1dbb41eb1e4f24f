// C20: buffers splice exactly and refuse out-of-range requests unchanged.
#include "alloc.hh"
#include "guard.hh"
#include "schema.hh"
extern "C" {
#include "core/buffer.h"
#include "core/stream.h"
#include "message/buffer.h"
#include "message/journal.h"
}
using namespace sch;
using mon::op; using mon::violate;

namespace {

std::string content(Rng &r, size_t max) {
  size_t n = r.one_in(30) ? r.below(70000) : r.one_in(4) ? r.below(max) : r.below(12);
  std::string s(n, '\0');
  for (auto &c : s) c = (char)r.next();
  return s;
}
size_t position(Rng &r, size_t n) {   // positions at and around the borders preferred
  switch (r.below(5)) {
    case 0: return 0;
    case 1: return n;
    case 2: return n ? n - 1 : 0;
    default: return r.below(n + 1);
  }
}
size_t outside(Rng &r, size_t n) {
  switch (r.below(5)) {
    case 0: return SIZE_MAX; case 1: return SIZE_MAX - r.below(20); case 2: return (size_t)1 << (32 + r.below(31));
    default: return n + 1 + r.below(20);
  }
}

void verify(const uint8_t *d, size_t n, const std::string &want, const char *what) {
  mon::count("content-comparisons");
  mon::distinct(mon::fnv(want));
  if (n != want.size() || (n && memcmp(d, want.data(), n)))
    violate((std::string("content:") + what).c_str(), "after %s\n got %s\nwant %s", what, mon::hex(d, n).c_str(), mon::hex(want).c_str());
}

void buffers(Rng &r, uint64_t id) {
  Ledger led; bool own = r.flip();
  std::string m = content(r, 200);
  {
    Guarded init(m);
    pb_buffer_t b = m.empty()
      ? own ? pb_buffer_create_empty_with_allocator(&led.a) : pb_buffer_create_empty()
      : own ? pb_buffer_create_with_allocator(&led.a, init.data, m.size()) : pb_buffer_create(init.data, m.size());
    if (!pb_buffer_valid(&b)) violate("create", "a buffer of %zu bytes is invalid", m.size());
    verify(pb_buffer_data(&b), pb_buffer_size(&b), m, "create");
    int steps = 5 + (int)r.below(40);
    while (steps--) {
      size_t n = m.size(), s = position(r, n), e = position(r, n);
      if (s > e) std::swap(s, e);
      std::string d = r.one_in(3) ? std::string(e - s, (char)r.next()) : content(r, 60);
      bool bad = false;
      if (r.one_in(5)) {
        bad = true;
        switch (r.below(3)) {
          case 0: e = outside(r, n); break;
          case 1: s = outside(r, n); e = s == SIZE_MAX || r.flip() ? s : s + 1; break;
          default: if (s == e) { if (e == 0) { s = 1; } else e--; } else std::swap(s, e);
        }
      }
      Guarded data(d);
      bool fault = own && r.one_in(8);
      if (fault) { led.denied = 0; led.arm(1, r.flip()); }
      pb_error_t err; const char *what;
      unsigned k = (unsigned)r.below(10);
      if (k < 6) {
        what = bad ? "out-of-range write" : "write";
        err = pb_buffer_write(&b, s, e, d.empty() ? nullptr : data.data, d.size());
        op("write [%zu,%zu) of %zu with %zu bytes: %d", s, e, n, d.size(), err);
        if (!bad && !err) m = m.substr(0, s) + d + m.substr(e);
      } else if (k < 9 || bad) {
        what = bad ? "out-of-range clear" : "clear";
        err = pb_buffer_clear(&b, s, e);
        op("clear [%zu,%zu) of %zu: %d", s, e, n, err);
        if (!bad && !err) m = m.substr(0, s) + m.substr(e);
      } else {
        what = "grow";
        if (d.empty()) d = "x";
        uint8_t *p = pb_buffer_grow(&b, d.size());
        err = p ? PB_ERROR_NONE : PB_ERROR_ALLOC;
        op("grow by %zu: %d", d.size(), err);
        if (p) {
          if (p != pb_buffer_data(&b) + n) violate("grow-pointer", "grow returns a pointer to offset %td, expected %zu", p - pb_buffer_data(&b), n);
          memcpy(p, d.data(), d.size()); m += d;
        }
      }
      bool denied = fault && led.denied; led.disarm(); led.denied = 0;
      mon::count((std::string("op:") + what).c_str());
      if (bad && err != PB_ERROR_OFFSET) violate("range-accepted", "%s [%zu,%zu) of %zu: error %d", what, s, e, n, err);
      if (!bad && err && !denied) violate("refused", "%s [%zu,%zu) of %zu with %zu bytes: error %d", what, s, e, n, d.size(), err);
      if (denied) mon::count("denied-requests");
      if (!pb_buffer_valid(&b) || pb_buffer_error(&b)) violate("invalid", "the buffer is invalid after %s", what);
      if (pb_buffer_empty(&b) != m.empty()) violate("empty", "pb_buffer_empty() is %d for %zu bytes", pb_buffer_empty(&b), m.size());
      verify(pb_buffer_data(&b), pb_buffer_size(&b), m, what);
      if (init.str().size() && false) break;
    }
    pb_buffer_destroy(&b);
    if (pb_buffer_valid(&b)) violate("destroyed-valid", "a destroyed buffer is valid");
  }
  led.expect_empty("after destroying the buffer");
  if (id < 1) mon::sample(mon::hex(m));
}

void journals(Rng &r, uint64_t) {
  Ledger led;
  std::string m = content(r, 200);
  {
    Guarded init(m);
    pb_journal_t j = m.empty() ? pb_journal_create_empty_with_allocator(&led.a)
      : pb_journal_create_with_allocator(&led.a, init.data, m.size());
    if (!pb_journal_valid(&j)) violate("create", "a journal is invalid");
    int steps = 5 + (int)r.below(40);
    while (steps--) {
      size_t n = m.size(), s = position(r, n), e = position(r, n);
      if (s > e) std::swap(s, e);
      std::string d = r.one_in(3) ? std::string(e - s, (char)r.next()) : content(r, 60);
      bool bad = r.one_in(6);
      if (bad) {
        e = outside(r, n);
        if (r.flip()) s = n + 1 < e ? n + 1 : n;
        if (e == SIZE_MAX && s == 0) s = 1;
      }
      size_t origin = r.below(s + 1);
      Guarded data(d);
      bool fault = r.one_in(6);
      if (fault) { led.denied = 0; led.arm(1 + r.below(2), r.flip()); }
      pb_error_t err; const char *what;
      if (r.below(3)) {
        what = bad ? "out-of-range write" : "write";
        err = pb_journal_write(&j, origin, s, e, d.empty() ? nullptr : data.data, d.size());
        if (!bad && !err) m = m.substr(0, s) + d + m.substr(e);
      } else {
        what = bad ? "out-of-range clear" : "clear";
        err = pb_journal_clear(&j, origin, s, e);
        if (!bad && !err) m = m.substr(0, s) + m.substr(e);
      }
      op("journal %s [%zu,%zu) of %zu with %zu bytes: %d", what, s, e, n, d.size(), err);
      bool denied = fault && led.denied; led.disarm(); led.denied = 0;
      mon::count((std::string("journal:") + what).c_str());
      if (bad && !err) violate("range-accepted", "journal %s [%zu,%zu) of %zu is accepted", what, s, e, n);
      if (!bad && err && !denied) violate("refused", "journal %s [%zu,%zu) of %zu: error %d", what, s, e, n, err);
      if (denied) mon::count("denied-requests");
      if (!pb_journal_valid(&j)) violate("invalid", "the journal is invalid after %s", what);
      verify(pb_journal_data(&j), pb_journal_size(&j), m, what);
    }
    pb_journal_destroy(&j);
    if (pb_journal_valid(&j)) violate("destroyed-valid", "a destroyed journal is valid");
  }
  led.expect_empty("after destroying the journal");
}

// Outcome of reading a value of a type at the front of p: bytes consumed (0:
// error); *known is false if the value itself is not specified.
size_t reference_read(pb_type_t t, const uint8_t *p, size_t left, Val *v, bool *known) {
  v->type = t; *known = true;
  int w = wiretype(t);
  if (w == WT_32 || w == WT_64) {
    size_t n = w == WT_32 ? 4 : 8;
    if (left < n) return 0;
    v->u = 0;
    for (size_t i = 0; i < n; i++) v->u |= (uint64_t)p[i] << (8 * i);
    return n;
  }
  uint64_t x; size_t n = get_varint(p, left, &x);
  if (w == WT_LEN) {
    if (!n || n > 5) return 0;
    if (n == 5 && p[4] > 0x0f) { *known = false; x = (uint32_t)x; }
    if (left - n < x) return 0;
    v->s.assign((const char *)p + n, (size_t)x);
    return n + (size_t)x;
  }
  if (!n) return 0;
  size_t max = t == PB_TYPE_BOOL ? 2 : native_size(t) == 4 ? 5 : 10;
  if (n > max) {
    bool neg = (t == PB_TYPE_INT32 || t == PB_TYPE_ENUM) && n == 10 && x >= 0xffffffff80000000ull;
    if (!neg) {
      // other ten-byte forms of negative numbers: not specified
      *known = !(n == 10 && (t == PB_TYPE_INT32 || t == PB_TYPE_ENUM));
      return 0;
    }
  }
  if (n == 10 && p[9] > 1) *known = false;
  if (max == 5 && n == 5 && p[4] > 0x0f) *known = false;
  switch (t) {
    case PB_TYPE_BOOL: v->u = x; if (x > 1) *known = false; break;
    case PB_TYPE_SINT32: { uint32_t z = (uint32_t)x; v->u = (z >> 1) ^ (z & 1 ? 0xffffffffu : 0); break; }
    case PB_TYPE_SINT64: v->u = (x >> 1) ^ (x & 1 ? ~0ull : 0); break;
    case PB_TYPE_INT64: case PB_TYPE_UINT64: v->u = x; break;
    default: v->u = (uint32_t)x;
  }
  return n;
}

void streams(Rng &r, uint64_t id) {
  // bytes made of valid values mostly, so that reads succeed often
  std::string m;
  int parts = 1 + (int)r.below(20);
  while (parts--) {
    if (r.one_in(6)) { m += content(r, 20); continue; }
    Val v = random_val(r, ALL_TYPES[r.below(16)]);
    if (v.is_str()) put_varint(m, v.s.size());
    m += payload(v);
  }
  if (m.empty()) m = "x";
  if (r.one_in(3)) m.resize(1 + r.below(m.size()));
  Guarded mem(m);
  op("stream over %s", mon::hex(m).c_str());
  pb_buffer_t b = pb_buffer_create_zero_copy(mem.data, mem.size);
  size_t pos = r.flip() ? 0 : r.below(m.size() + 1);
  auto sp = std::make_unique<pb_stream_t>(pos ? pb_stream_create_at(&b, pos) : pb_stream_create(&b));
  int steps = 4 + (int)r.below(40);
  while (steps--) {
    const uint8_t *p = mem.data + pos; size_t left = m.size() - pos;
    if (pb_stream_offset(sp.get()) != pos || pb_stream_left(sp.get()) != left || pb_stream_size(sp.get()) != m.size())
      violate("position", "offset %zu left %zu, expected %zu, %zu", pb_stream_offset(sp.get()), pb_stream_left(sp.get()), pos, left);
    if (pb_stream_buffer(sp.get()) != &b) violate("buffer", "stream forgot its buffer");
    mon::distinct(mon::fnv(p, left < 24 ? left : 24, left));
    unsigned k = (unsigned)r.below(8);
    if (k < 5) {
      pb_type_t t = ALL_TYPES[r.below(N_SCALAR + 3)];
      Val want; bool known; Native n;
      size_t c = reference_read(t, p, left, &want, &known);
      pb_error_t e = pb_stream_read(sp.get(), t, n.b);
      mon::count(e ? "failed-reads" : "reads");
      op("read %s at %zu: %d", type_name(t), pos, e);
      size_t moved = pb_stream_offset(sp.get()) - pos;
      if (e ? moved != 0 : moved > left) violate("read-position", "read of %s at %zu of %zu (error %d) moves by %zu", type_name(t), pos, m.size(), e, moved);
      if (known) {
        if (!e != !!c) violate("read-result", "read of %s at %zu of %zu: error %d, expected %s\n%s", type_name(t), pos, m.size(), e, c ? "success" : "failure", mon::hex(p, left, 40).c_str());
        if (!e && moved != c) violate("read-size", "read of %s consumes %zu bytes, expected %zu", type_name(t), moved, c);
        if (!e && wiretype(t) == WT_LEN) {
          pb_string_t str; memcpy(&str, n.b, sizeof str);
          if (!mem.inside(str.data, str.size) || str.data != p + c - want.s.size()) violate("read-string", "the string is not inside the buffer");
        }
        if (!e && from_native(t, n.b) != want) violate("read-value", "read of %s: %s, expected %s", type_name(t), from_native(t, n.b).show().c_str(), want.show().c_str());
        if (!e) for (size_t q = native_size(t); q < sizeof n.b; q++)
          if (n.b[q] != 0xA5) violate("read-overrun", "read of %s stores more than %zu bytes", type_name(t), native_size(t));
      }
      pos += moved;
    } else if (k < 7) {
      int w = (int)r.below(8); uint64_t x; size_t c = 0; bool known = true;
      switch (w) {
        case WT_VARINT: c = get_varint(p, left, &x); break;
        case WT_64: c = left >= 8 ? 8 : 0; break;
        case WT_32: c = left >= 4 ? 4 : 0; break;
        case WT_LEN: { Val v; c = reference_read(PB_TYPE_BYTES, p, left, &v, &known); break; }
      }
      pb_error_t e = pb_stream_skip(sp.get(), (pb_wiretype_t)w);
      mon::count(e ? "failed-skips" : "skips");
      op("skip wiretype %d at %zu: %d", w, pos, e);
      size_t moved = pb_stream_offset(sp.get()) - pos;
      if (e ? moved != 0 : moved > left) violate("skip-position", "skip %d at %zu of %zu (error %d) moves by %zu", w, pos, m.size(), e, moved);
      if (known && (!e != !!c || moved != c)) violate("skip-result", "skip of wiretype %d at %zu of %zu: error %d, %zu bytes, expected %zu\n%s", w, pos, m.size(), e, moved, c, mon::hex(p, left, 40).c_str());
      pos += moved;
    } else {
      bool bad = r.one_in(3);
      size_t a = bad ? outside(r, left) : r.below(left + 1);
      pb_error_t e = pb_stream_advance(sp.get(), a);
      op("advance %zu at %zu: %d", a, pos, e);
      mon::count("advances");
      if (bad ? e != PB_ERROR_OFFSET : e != PB_ERROR_NONE) violate("advance", "advance by %zu with %zu left: error %d", a, left, e);
      if (!bad) pos += a;
      if (pb_stream_offset(sp.get()) != pos) violate("advance-position", "advance by %zu with %zu left (error %d): offset %zu, expected %zu", a, left, e, pb_stream_offset(sp.get()), pos);
    }
    if (pos == m.size() && r.flip()) { pos = r.below(m.size()); sp = std::make_unique<pb_stream_t>(pb_stream_create_at(&b, pos)); }
  }
  if (mem.str() != m) violate("stream-modified", "reading modified the buffer");
  pb_stream_destroy(sp.get()); pb_buffer_destroy(&b);
  if (id < 1) mon::sample(mon::hex(m));
}

// All (start, end, size) triples on small buffers.
void exhaustive(Rng &r, uint64_t id) {
  size_t n = id % 9;
  std::string m0(n, '\0');
  for (auto &c : m0) c = (char)r.next();
  for (size_t s = 0; s <= n + 1; s++) for (size_t e = 0; e <= n + 1; e++) for (size_t k = 0; k <= 10; k++) {
    Ledger led;
    {
      std::string m = m0, d(k, '\0');
      for (auto &c : d) c = (char)r.next();
      pb_buffer_t b = n ? pb_buffer_create_with_allocator(&led.a, (const uint8_t *)m.data(), n) : pb_buffer_create_empty_with_allocator(&led.a);
      Guarded data(d);
      bool bad = s > e || e > n;
      op("write [%zu,%zu) of %zu with %zu bytes", s, e, n, k);
      pb_error_t err = pb_buffer_write(&b, s, e, k ? data.data : nullptr, k);
      if (bad ? err != PB_ERROR_OFFSET : err != PB_ERROR_NONE) violate("exhaustive-result", "write [%zu,%zu) of %zu with %zu bytes: error %d", s, e, n, k, err);
      if (!bad) m = m.substr(0, s) + d + m.substr(e);
      verify(pb_buffer_data(&b), pb_buffer_size(&b), m, "write");
      size_t z = m.size();
      if (k <= z + 1 && s <= z + 1) {
        bad = s > k || k > z;
        err = pb_buffer_clear(&b, s, k);
        if (bad ? err != PB_ERROR_OFFSET : err != PB_ERROR_NONE) violate("exhaustive-result", "clear [%zu,%zu) of %zu: error %d", s, k, z, err);
        if (!bad) m = m.substr(0, s) + m.substr(k);
        verify(pb_buffer_data(&b), pb_buffer_size(&b), m, "clear");
      }
      mon::count("exhaustive-triples");
      pb_buffer_destroy(&b);
    }
    led.expect_empty("exhaustive");
  }
}

// Splices of buffers of many megabytes.
void giant(Rng &r, uint64_t) {
  std::string m((size_t)1 << 20 << (r.one_in(3) ? r.below(4) : 4 + r.below(2)), '\0');
  m.resize(m.size() + (r.one_in(3) ? r.below(1000) : r.below(m.size())));
  uint32_t x = (uint32_t)r.next();
  for (auto &c : m) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); }
  pb_journal_t j = pb_journal_create((const uint8_t *)m.data(), m.size());
  if (!pb_journal_valid(&j)) violate("create", "a journal of %zu bytes is invalid", m.size());
  for (int i = 0; i < 3; i++) {
    size_t n = m.size(), s = !r.one_in(3) ? r.below(100) : position(r, n), e = s + r.below(r.flip() ? 100 : n - s + 1);
    if (e > n) e = n;
    std::string d = r.one_in(3) ? content(r, 200) : std::string(r.below(300), 'd');
    if (r.one_in(3)) d.assign((size_t)1 << (16 + r.below(9)), 'D');
    if (r.one_in(3)) d.clear();
    op("%zu bytes: [%zu,%zu) becomes %zu bytes", n, s, e, d.size());
    pb_error_t err = d.empty() && r.flip() ? pb_journal_clear(&j, s, s, e)
                                           : pb_journal_write(&j, s, s, e, (const uint8_t *)d.data(), d.size());
    if (err) violate("refused", "error %d", err);
    m.replace(s, e - s, d);
    const pb_buffer_t *b = pb_journal_buffer(&j);
    mon::count("giant-splices");
    mon::distinct(mon::fnv(&s, sizeof s, m.size()));
    if (pb_buffer_size(b) != m.size()) violate("content:giant", "%zu bytes instead of %zu", pb_buffer_size(b), m.size());
    if (memcmp(pb_buffer_data(b), m.data(), m.size())) {
      size_t k = 0; while (pb_buffer_data(b)[k] == (uint8_t)m[k]) k++;
      violate("content:giant", "byte %zu of %zu differs", k, m.size());
    }
    if (m.empty()) break;
  }
  pb_journal_destroy(&j);
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"buffers", buffers, 30000, 2000000},
    {"journals", journals, 20000, 1500000},
    {"streams", streams, 60000, 4000000},
    {"exhaustive", exhaustive, 18, 90},
    {"giant", giant, 24, 400},
  });
}
