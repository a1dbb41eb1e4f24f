// C02: scalar values survive encode/decode exactly and encode canonically.
#include "schema.hh"
extern "C" {
#include <protobluff.h>
}
using namespace sch;
using mon::violate; using mon::op;

namespace {

const pb_tag_t TAGS[] = {1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, (1u << 29) - 1};

struct OneField {
  Universe u;
  const pb_descriptor_t *d;
  OneField(pb_type_t t, uint32_t tag, pb_label_t label, bool packed) {
    u.enums.push_back({{{0, "A"}, {1, "B"}}});
    u.msgs.resize(1);
    FieldDef f; f.tag = tag; f.type = t; f.label = label; f.packed = packed; f.name = "f";
    if (t == PB_TYPE_ENUM) f.enumidx = 0;
    u.msgs[0].fields.push_back(f);
    u.build();
    d = u.desc[0];
  }
};

struct Sink { std::vector<Val> got; pb_type_t t; uint32_t tag; };
pb_error_t on_value(const pb_field_descriptor_t *f, const void *v, void *user) {
  Sink *s = (Sink *)user;
  if (f->tag != s->tag || f->type != s->t) violate("wrong-field", "handler got field %u", f->tag);
  s->got.push_back(from_native(s->t, v));
  return PB_ERROR_NONE;
}

std::string tag_bytes(uint32_t tag, int wt) {
  std::string o; put_varint(o, ((uint64_t)tag << 3) | (uint64_t)wt); return o;
}

// Decode exactly `bytes` (held in an exactly sized allocation).
pb_error_t decode(const pb_descriptor_t *d, const std::string &bytes, Sink &s) {
  std::unique_ptr<uint8_t[]> mem(new uint8_t[bytes.size()]);
  memcpy(mem.get(), bytes.data(), bytes.size());
  pb_buffer_t b = pb_buffer_create_zero_copy(mem.get(), bytes.size());
  pb_decoder_t dec = pb_decoder_create(d, &b);
  pb_error_t e = pb_decoder_decode(&dec, on_value, &s);
  pb_decoder_destroy(&dec); pb_buffer_destroy(&b);
  return e;
}

void check_values(pb_type_t t, const std::vector<Val> &vals, uint32_t tag, Rng &r) {
  OneField single(t, tag, PB_LABEL_OPTIONAL, false);
  OneField packed(t, tag, PB_LABEL_REPEATED, true);
  std::string want_run;
  std::vector<uint8_t> natives;
  for (const Val &v : vals) {
    Native n; to_native(v, n);
    natives.insert(natives.end(), n.b, n.b + native_size(t));
    std::string p = payload(v), want = tag_bytes(tag, wiretype(t)) + p;
    want_run += p;
    mon::count("values");
    mon::distinct(mon::fnv(want, (uint64_t)t));
    // 1. encoder
    pb_encoder_t enc = pb_encoder_create(single.d);
    pb_error_t e = pb_encoder_encode(&enc, tag, n.b, 1);
    const pb_buffer_t *b = pb_encoder_buffer(&enc);
    std::string got((const char *)pb_buffer_data(b), pb_buffer_size(b));
    if (e) violate("encode-error", "%s: error %d", v.show().c_str(), e);
    if (got != want)
      violate("encode-bytes", "%s tag %u encodes as %s, expected %s", v.show().c_str(),
        tag, mon::hex(got).c_str(), mon::hex(want).c_str());
    pb_encoder_destroy(&enc);
    // 2. decoder, on the exact bytes and with another copy following
    Sink s{{}, t, tag};
    e = decode(single.d, want, s);
    if (e || s.got.size() != 1 || s.got[0] != v)
      violate("decode-value", "%s decodes (error %d) as %s from %s", v.show().c_str(), e,
        s.got.empty() ? "nothing" : s.got[0].show().c_str(), mon::hex(want).c_str());
    Val v2 = random_val(r, t);
    std::string two = want + tag_bytes(tag, wiretype(t)) + payload(v2);
    s.got.clear();
    e = decode(single.d, two, s);
    if (e || s.got.size() != 2 || s.got[0] != v || s.got[1] != v2)
      violate("decode-followed", "%s followed by %s: error %d, %zu values", v.show().c_str(),
        v2.show().c_str(), e, s.got.size());
    // 3. message put on empty and get
    pb_journal_t j = pb_journal_create_empty();
    pb_message_t m = pb_message_create(single.d, &j);
    Native out;
    e = pb_message_put(&m, tag, n.b);
    std::string jb((const char *)pb_journal_data(&j), pb_journal_size(&j));
    if (e || jb != want)
      violate("put-bytes", "%s put (error %d) gives %s, expected %s", v.show().c_str(), e,
        mon::hex(jb).c_str(), mon::hex(want).c_str());
    e = pb_message_get(&m, tag, out.b);
    if (e || from_native(t, out.b) != v)
      violate("get-value", "%s put then get (error %d): %s", v.show().c_str(), e,
        from_native(t, out.b).show().c_str());
    for (size_t k = native_size(t); k < sizeof out.b; k++)
      if (out.b[k] != 0xA5) violate("get-overrun", "get of %s wrote %zu bytes", type_name(t), k + 1);
    // 4. overwrite by another value: exact bytes again
    Native n2; to_native(v2, n2);
    e = pb_message_put(&m, tag, n2.b);
    std::string w2 = tag_bytes(tag, wiretype(t)) + payload(v2);
    jb.assign((const char *)pb_journal_data(&j), pb_journal_size(&j));
    if (e || jb != w2)
      violate("overwrite-bytes", "%s over %s (error %d) gives %s", v2.show().c_str(),
        v.show().c_str(), e, mon::hex(jb).c_str());
    pb_message_destroy(&m); pb_journal_destroy(&j);
    // 5. non-minimal encodings no longer than the type's maximum
    if (wiretype(t) == WT_VARINT) {
      size_t max = t == PB_TYPE_BOOL ? 2 : native_size(t) == 8 ? 10 : 5;
      if (p.size() < max) {
        size_t len = p.size() + 1 + r.below(max - p.size());
        std::string q = p;
        q.back() = (char)(q.back() | 0x80);
        while (q.size() < len - 1) q += (char)0x80;
        q += (char)0;
        s.got.clear();
        e = decode(single.d, tag_bytes(tag, 0) + q + (r.flip() ? want : ""), s);
        mon::count("padded");
        if (e || s.got.empty() || s.got[0] != v)
          violate("decode-padded", "%s padded to %s: error %d value %s", v.show().c_str(),
            mon::hex(q).c_str(), e, s.got.empty() ? "-" : s.got[0].show().c_str());
      }
    }
    // 6. every truncation is an error and delivers nothing
    for (size_t k = 1; k < want.size(); k++) {
      s.got.clear();
      e = decode(single.d, want.substr(0, k), s);
      mon::count("truncations");
      if (!e || !s.got.empty())
        violate("truncated-accepted", "%s cut to %zu bytes: error %d, %zu values",
          mon::hex(want).c_str(), k, e, s.got.size());
    }
  }
  // 7. all of them as one packed run
  if (vals.size() > 1) {
    std::string want = tag_bytes(tag, WT_LEN);
    put_varint(want, want_run.size());
    want += want_run;
    pb_encoder_t enc = pb_encoder_create(packed.d);
    pb_error_t e = pb_encoder_encode(&enc, tag, natives.data(), vals.size());
    const pb_buffer_t *b = pb_encoder_buffer(&enc);
    std::string got((const char *)pb_buffer_data(b), pb_buffer_size(b));
    if (e || got != want)
      violate("packed-bytes", "%zu %s values: error %d\n got %s\nwant %s", vals.size(),
        type_name(t), e, mon::hex(got).c_str(), mon::hex(want).c_str());
    pb_encoder_destroy(&enc);
    Sink s{{}, t, tag};
    e = decode(packed.d, want, s);
    mon::count("packed-runs");
    if (e || s.got != vals)
      violate("packed-values", "%zu %s values decode with error %d to %zu values", vals.size(),
        type_name(t), e, s.got.size());
  }
}

// Boundary values of every type: all 2^k +- 1 and complements.
void boundaries(Rng &r, uint64_t id) {
  pb_type_t t = ALL_TYPES[id % N_SCALAR];
  uint32_t tag = TAGS[(id / N_SCALAR) % 10];
  std::vector<Val> vals;
  int bits = (int)native_size(t) * 8;
  auto add = [&](uint64_t x) {
    Val v; v.type = t;
    v.u = t == PB_TYPE_BOOL ? x & 1 : bits == 32 ? (uint32_t)x : x;
    vals.push_back(v);
  };
  if (t == PB_TYPE_BOOL) { add(0); add(1); }
  else for (int k = 0; k < bits; k++)
    for (int d = -1; d <= 1; d++) { add((1ull << k) + (uint64_t)d); add(~((1ull << k) + (uint64_t)d)); }
  op("boundaries of %s, tag %u", type_name(t), tag);
  check_values(t, vals, tag, r);
  if (id == 0) mon::sample("boundaries int32: " + vals[5].show() + " " + vals.back().show());
}

void random_values(Rng &r, uint64_t id) {
  pb_type_t t = ALL_TYPES[id % N_SCALAR];
  uint32_t tag = random_tag(r, true);
  std::vector<Val> vals;
  size_t n = 1 + r.below(60);
  for (size_t i = 0; i < n; i++) vals.push_back(random_val(r, t));
  op("%zu random %s values, tag %u", n, type_name(t), tag);
  check_values(t, vals, tag, r);
  if (id == 3) mon::sample("random " + vals[0].show());
}

// Overlong varints (no terminator within ten bytes) are rejected.
void overlong(Rng &r, uint64_t id) {
  pb_type_t t = ALL_TYPES[id % N_SCALAR];
  if (wiretype(t) != WT_VARINT) t = PB_TYPE_UINT64;
  OneField f(t, 1, PB_LABEL_OPTIONAL, false);
  for (int i = 0; i < 20; i++) {
    std::string b = tag_bytes(1, 0);
    size_t n = 10 + r.below(12);
    for (size_t k = 0; k < n; k++) b += (char)(0x80 | (r.one_in(3) ? 0x7f : r.next()));
    if (r.flip()) b += (char)r.below(128);
    Sink s{{}, t, 1};
    pb_error_t e = decode(f.d, b, s);
    mon::count("overlong");
    mon::distinct(mon::fnv(b));
    if (!e || !s.got.empty())
      violate("overlong-accepted", "%s: %s accepted (error %d, %zu values)", type_name(t),
        mon::hex(b).c_str(), e, s.got.size());
  }
}

// Encodings longer than the type allows: six to ten bytes for a 32-bit type (other than
// a negative number extended to ten), three and more for a boolean. And booleans
// other than one are true.
void too_long(Rng &r, uint64_t id) {
  static const pb_type_t T[] = {PB_TYPE_INT32, PB_TYPE_UINT32, PB_TYPE_SINT32, PB_TYPE_ENUM, PB_TYPE_BOOL};
  pb_type_t t = T[id % 5];
  OneField f(t, 1, PB_LABEL_OPTIONAL, false);
  bool sign = t == PB_TYPE_INT32 || t == PB_TYPE_ENUM;
  for (int i = 0; i < 20; i++) {
    std::string v;
    if (t == PB_TYPE_BOOL && r.flip()) {
      v = std::string(1, (char)(0x80 | r.below(128))) + (char)1;
      Sink s{{}, t, 1};
      pb_error_t e = decode(f.d, tag_bytes(1, 0) + v, s);
      mon::count("wide-booleans");
      if (e || s.got.size() != 1 || !s.got[0].u)
        violate("wide-boolean", "%s: error %d, %zu values", mon::hex(v).c_str(), e, s.got.size());
      continue;
    }
    size_t n = t == PB_TYPE_BOOL ? 3 + r.below(8) : 6 + r.below(5);
    uint64_t low = r.next();
    if (sign && n == 10) {      // a negative number with a defect in its extension
      for (int k = 0; k < 9; k++) v += (char)(k < 4 ? 0x80 | r.below(128) : k == 4 ? 0xf8 | low % 8 : 0xff);
      v += (char)1;
      size_t k = 5 + r.below(5);
      v[k] = k == 9 ? (char)(r.flip() ? 0 : 2 + r.below(126)) : (char)(0x80 | r.below(127));
    } else {
      for (size_t k = 0; k + 1 < n; k++) v += (char)(0x80 | (r.flip() ? 0 : r.below(128)));
      v += (char)(r.flip() ? 0 : r.below(128));
      if (t != PB_TYPE_BOOL) v[4] = (char)(0x80 | r.below(16));
    }
    std::string b = tag_bytes(1, 0) + v;
    if (r.one_in(3)) b += tag_bytes(1, 0) + (char)1;
    Sink s{{}, t, 1};
    pb_error_t e = decode(f.d, b, s);
    mon::count("too-long");
    mon::distinct(mon::fnv(b, (uint64_t)t));
    if (!e || !s.got.empty())
      violate("too-long-accepted", "%s: %s accepted (error %d, %zu values)", type_name(t), mon::hex(b).c_str(), e, s.got.size());
  }
}

// Sweep of the 32-bit value space in packed blocks (thorough: complete).
void sweep32(Rng &r, uint64_t id) {
  static const pb_type_t T[] = {PB_TYPE_UINT32, PB_TYPE_INT32, PB_TYPE_SINT32};
  const uint64_t BLOCK = 1 << 16;
  const bool full = mon::opts().thorough;
  uint64_t blocks = 1ull << 16;
  pb_type_t t = T[id % 3];
  uint64_t blk = full ? (id / 3) % blocks : r.below(blocks);
  static OneField f0(T[0], 3, PB_LABEL_REPEATED, true), f1(T[1], 3, PB_LABEL_REPEATED, true),
    f2(T[2], 3, PB_LABEL_REPEATED, true);
  OneField &f = id % 3 == 0 ? f0 : id % 3 == 1 ? f1 : f2;
  std::vector<uint32_t> vals((size_t)BLOCK);
  std::string run;
  for (uint64_t i = 0; i < BLOCK; i++) {
    uint32_t x = (uint32_t)(blk * BLOCK + i);
    vals[i] = x;
    uint64_t w = t == PB_TYPE_UINT32 ? x : t == PB_TYPE_INT32 ? (uint64_t)(int64_t)(int32_t)x
      : (uint64_t)(uint32_t)((int32_t)x >= 0 ? 2 * x : 2 * ~x + 1);
    put_varint(run, w);
  }
  std::string want = tag_bytes(3, WT_LEN);
  put_varint(want, run.size());
  want += run;
  pb_encoder_t enc = pb_encoder_create(f.d);
  pb_error_t e = pb_encoder_encode(&enc, 3, vals.data(), vals.size());
  const pb_buffer_t *b = pb_encoder_buffer(&enc);
  op("sweep %s block %llu", type_name(t), (unsigned long long)blk);
  if (e || pb_buffer_size(b) != want.size() || memcmp(pb_buffer_data(b), want.data(), want.size()))
    violate("sweep-encode", "block %llu of %s", (unsigned long long)blk, type_name(t));
  struct S { const std::vector<uint32_t> *v; size_t k; } s{&vals, 0};
  pb_decoder_t dec = pb_decoder_create(f.d, b);
  e = pb_decoder_decode(&dec, [](const pb_field_descriptor_t *, const void *v, void *u) -> pb_error_t {
    S *s = (S *)u; uint32_t x; memcpy(&x, v, 4);
    if (s->k >= s->v->size() || (*s->v)[s->k] != x) return PB_ERROR_EOM;
    s->k++; return PB_ERROR_NONE;
  }, &s);
  if (e || s.k != vals.size())
    violate("sweep-decode", "block %llu of %s fails at value %zu (error %d)",
      (unsigned long long)blk, type_name(t), s.k, e);
  pb_decoder_destroy(&dec); pb_encoder_destroy(&enc);
  mon::count("values", BLOCK);
  mon::distinct(mon::fnv(&blk, 8, (uint64_t)t));
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"boundaries", boundaries, N_SCALAR * 10, N_SCALAR * 10},
    {"random", random_values, 4000, 200000},
    {"overlong", overlong, 400, 4000},
    {"too-long", too_long, 1000, 50000},
    {"sweep32", sweep32, 48, 3 * 65536},
  });
}
