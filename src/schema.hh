// Random message schemas, expressed through the library's public descriptor
// structures, plus an independent reference codec for scalar values.
#ifndef SCHEMA_HH
#define SCHEMA_HH
#include "mon.hh"
#include <algorithm>
#include <set>
extern "C" {
#include <protobluff.h>
#include <protobluff/descriptor.h>
}
#undef INT32
#undef INT64
#undef UINT32
#undef UINT64
#undef SINT32
#undef SINT64
#undef FIXED32
#undef FIXED64
#undef SFIXED32
#undef SFIXED64
#undef BOOL
#undef ENUM
#undef FLOAT
#undef DOUBLE
#undef STRING
#undef BYTES
#undef MESSAGE
#undef REQUIRED
#undef OPTIONAL
#undef REPEATED
#undef ONEOF
#undef PACKED

namespace sch {
using mon::Rng;

enum { WT_VARINT = 0, WT_64 = 1, WT_LEN = 2, WT_32 = 5 };

inline const char *type_name(int t) {
  switch (t) {
    case PB_TYPE_INT32: return "int32"; case PB_TYPE_INT64: return "int64";
    case PB_TYPE_UINT32: return "uint32"; case PB_TYPE_UINT64: return "uint64";
    case PB_TYPE_SINT32: return "sint32"; case PB_TYPE_SINT64: return "sint64";
    case PB_TYPE_FIXED32: return "fixed32"; case PB_TYPE_FIXED64: return "fixed64";
    case PB_TYPE_SFIXED32: return "sfixed32"; case PB_TYPE_SFIXED64: return "sfixed64";
    case PB_TYPE_BOOL: return "bool"; case PB_TYPE_ENUM: return "enum";
    case PB_TYPE_FLOAT: return "float"; case PB_TYPE_DOUBLE: return "double";
    case PB_TYPE_STRING: return "string"; case PB_TYPE_BYTES: return "bytes";
    case PB_TYPE_MESSAGE: return "message";
  }
  return "?";
}
static const pb_type_t ALL_TYPES[] = {
  PB_TYPE_INT32, PB_TYPE_INT64, PB_TYPE_UINT32, PB_TYPE_UINT64, PB_TYPE_SINT32,
  PB_TYPE_SINT64, PB_TYPE_FIXED32, PB_TYPE_FIXED64, PB_TYPE_SFIXED32,
  PB_TYPE_SFIXED64, PB_TYPE_BOOL, PB_TYPE_ENUM, PB_TYPE_FLOAT, PB_TYPE_DOUBLE,
  PB_TYPE_STRING, PB_TYPE_BYTES, PB_TYPE_MESSAGE };
static const int N_SCALAR = 14;  // first 14 of ALL_TYPES are packable scalars

inline int wiretype(pb_type_t t) {
  switch (t) {
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT: return WT_32;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return WT_64;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE: return WT_LEN;
    default: return WT_VARINT;
  }
}
inline size_t native_size(pb_type_t t) {
  switch (t) {
    case PB_TYPE_INT64: case PB_TYPE_UINT64: case PB_TYPE_SINT64:
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE: return 8;
    case PB_TYPE_BOOL: return 1;
    case PB_TYPE_STRING: case PB_TYPE_BYTES: case PB_TYPE_MESSAGE:
      return sizeof(pb_string_t);
    default: return 4;
  }
}

inline void put_varint(std::string &o, uint64_t v) {
  while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; }
  o += (char)v;
}
inline size_t varint_len(uint64_t v) { size_t n = 1; while (v >>= 7) n++; return n; }

// Reference varint parse: returns consumed bytes, 0 if truncated / >10 bytes.
inline size_t get_varint(const uint8_t *p, size_t left, uint64_t *v) {
  uint64_t r = 0;
  for (size_t i = 0; i < 10 && i < left; i++) {
    r |= i < 9 ? (uint64_t)(p[i] & 0x7f) << (7 * i) : (uint64_t)(p[i] & 1) << 63;
    if (!(p[i] & 0x80)) { *v = r; return i + 1; }
  }
  return 0;
}

// A scalar or string value. `u` holds the bit pattern, zero extended from the
// native width; strings live in `s`.
struct Val {
  pb_type_t type = PB_TYPE_INT32;
  uint64_t u = 0;
  std::string s;
  bool is_str() const { return wiretype(type) == WT_LEN; }
  bool operator==(const Val &o) const {
    return type == o.type && (is_str() ? s == o.s : u == o.u);
  }
  bool operator!=(const Val &o) const { return !(*this == o); }
  std::string show() const {
    char b[64];
    if (is_str()) return std::string(type_name(type)) + ":" + mon::hex(s.data(), s.size(), 24);
    snprintf(b, sizeof b, "%s:0x%llx", type_name(type), (unsigned long long)u);
    return b;
  }
};

// Native representation handed to / received from the library.
struct Native {
  alignas(16) uint8_t b[32];
  Native() { memset(b, 0xA5, sizeof b); }
};
inline void to_native(const Val &v, Native &n) {
  if (v.is_str()) {
    // empty values of type bytes have no data at all
    pb_string_t s = v.s.empty() && v.type == PB_TYPE_BYTES ? pb_string_init_empty()
      : pb_string_init((uint8_t *)(uintptr_t)v.s.c_str(), v.s.size());
    memcpy(n.b, &s, sizeof s);
  } else memcpy(n.b, &v.u, native_size(v.type));  // little endian host
}
inline Val from_native(pb_type_t t, const void *p) {
  Val v; v.type = t;
  if (v.is_str()) {
    pb_string_t s; memcpy(&s, p, sizeof s);
    v.s.assign((const char *)s.data, s.data ? s.size : 0);
  } else memcpy(&v.u, p, native_size(t));
  return v;
}

// Reference encoding of a scalar's payload (no tag, no length prefix).
inline std::string payload(const Val &v) {
  std::string o;
  switch (v.type) {
    case PB_TYPE_INT32: case PB_TYPE_ENUM:
      put_varint(o, (uint64_t)(int64_t)(int32_t)(uint32_t)v.u); break;
    case PB_TYPE_SINT32: {
      int32_t x = (int32_t)(uint32_t)v.u;
      uint32_t z = x >= 0 ? 2u * (uint32_t)x : 2u * (uint32_t)(-(int64_t)x) - 1u;
      put_varint(o, z); break;
    }
    case PB_TYPE_SINT64: {
      int64_t x = (int64_t)v.u;
      uint64_t z = x >= 0 ? 2ull * (uint64_t)x : 2ull * (~(uint64_t)x) + 1ull;
      put_varint(o, z); break;
    }
    case PB_TYPE_INT64: case PB_TYPE_UINT32: case PB_TYPE_UINT64: case PB_TYPE_BOOL:
      put_varint(o, v.u); break;
    case PB_TYPE_FIXED32: case PB_TYPE_SFIXED32: case PB_TYPE_FLOAT:
      for (int i = 0; i < 4; i++) o += (char)(v.u >> (8 * i));
      break;
    case PB_TYPE_FIXED64: case PB_TYPE_SFIXED64: case PB_TYPE_DOUBLE:
      for (int i = 0; i < 8; i++) o += (char)(v.u >> (8 * i));
      break;
    default: o = v.s;
  }
  return o;
}
// Reference decoding of one (canonically encoded) scalar payload.
inline bool unpayload(pb_type_t t, const std::string &p, Val *v) {
  v->type = t; v->u = 0; v->s.clear();
  if (wiretype(t) == WT_LEN) { v->s = p; return true; }
  if (wiretype(t) == WT_VARINT) {
    uint64_t x;
    if (get_varint((const uint8_t *)p.data(), p.size(), &x) != p.size()) return false;
    switch (t) {
      case PB_TYPE_SINT32: { uint32_t z = (uint32_t)x; v->u = (z >> 1) ^ (z & 1 ? 0xffffffffu : 0); break; }
      case PB_TYPE_SINT64: v->u = (x >> 1) ^ (x & 1 ? ~0ull : 0); break;
      case PB_TYPE_INT64: case PB_TYPE_UINT64: v->u = x; break;
      case PB_TYPE_BOOL: v->u = x ? 1 : 0; break;
      default: v->u = (uint32_t)x;
    }
    return true;
  }
  size_t n = wiretype(t) == WT_32 ? 4 : 8;
  if (p.size() != n) return false;
  for (size_t i = 0; i < n; i++) v->u |= (uint64_t)(uint8_t)p[i] << (8 * i);
  return true;
}

inline uint64_t interesting_u64(Rng &r) {
  switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: { uint64_t b = 1ull << (7 * r.below(10) < 63 ? 7 * r.below(10) % 64 : 63); return b - 1 + r.below(3); }
    case 2: { uint64_t b = 1ull << r.below(64); return b - 1 + r.below(3); }
    case 3: return r.next() >> r.below(64);
    case 4: return ~(r.next() >> r.below(64));
    default: return r.next();
  }
}
inline std::string random_string(Rng &r, bool big = false) {
  size_t n;
  switch (r.below(12)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = 126 + r.below(4); break;
    case 3: n = big ? 16380 + r.below(8) : 120 + r.below(20); break;
    case 4: n = r.below(300); break;
    default: n = 2 + r.below(24);
  }
  std::string s(n, '\0');
  int mode = (int)r.below(4);
  for (auto &c : s)
    c = mode == 0 ? (char)r.next() : mode == 1 ? (char)('a' + r.below(3)) :
      mode == 2 ? (char)(r.flip() ? 0xff : 0x80) : (char)r.below(4);
  return s;
}
inline Val random_val(Rng &r, pb_type_t t, bool big = false) {
  Val v; v.type = t;
  if (wiretype(t) == WT_LEN) { v.s = random_string(r, big); return v; }
  uint64_t x = interesting_u64(r);
  if (t == PB_TYPE_BOOL) v.u = x & 1;
  else if (native_size(t) == 4) v.u = (uint32_t)x;
  else v.u = x;
  return v;
}

struct FieldDef {
  uint32_t tag = 0;
  pb_type_t type = PB_TYPE_INT32;
  pb_label_t label = PB_LABEL_OPTIONAL;
  bool packed = false;
  int nested = -1;     // message index
  int enumidx = -1;
  int oneof = -1;      // oneof index within message
  int ext = -1;        // extension group (-1: base field)
  bool tower = false;  // next storey of a deeply nested message
  bool opaque = false; // submessage the library knows as a field of type bytes
  bool hasdef = false;
  Val def;
  std::string name;
};
struct EnumDef { std::vector<std::pair<int32_t, std::string>> values; };
struct MsgDef {
  std::vector<FieldDef> fields;   // sorted by tag, base and extensions
  int oneofs = 0;
  int extgroups = 0;
  const FieldDef *find(uint32_t tag) const {
    for (auto &f : fields) if (f.tag == tag) return &f;
    return nullptr;
  }
};

struct Params {
  int messages = 4;
  int max_fields = 8;
  bool extensions = true, oneofs = true, packed = true, recursion = true;
  bool defaults = true, big_tags = true, strings = true, submessages = true;
  bool required = true;
  bool required_heavy = false;   // many required fields, also in extensions
  bool opaque = false;           // some submessages live in fields of type bytes
  bool tower = false;            // every message has one submessage that goes on
  int wide = 80;                 // one in so many schemas has a message with 65-300 fields
};

// A set of message types together with live library descriptors for them.
struct Universe {
  std::vector<MsgDef> msgs;
  std::vector<EnumDef> enums;
  std::vector<pb_descriptor_t *> desc;
  std::vector<pb_enum_descriptor_t *> edesc;
  std::vector<std::vector<pb_oneof_descriptor_t *>> odesc;
  std::vector<std::unique_ptr<char[]>> mem;

  template <class T> T *alloc(size_t n = 1) {
    mem.emplace_back(new char[sizeof(T) * (n ? n : 1) + 16]);
    uintptr_t p = ((uintptr_t)mem.back().get() + 15) & ~(uintptr_t)15;
    memset((void *)p, 0, sizeof(T) * (n ? n : 1));
    return (T *)p;
  }
  const char *str(const std::string &s) {
    char *p = alloc<char>(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
  }

  void build() {
    for (auto &e : enums) {
      auto *vals = alloc<char>(sizeof(pb_enum_value_descriptor_t) * e.values.size());
      for (size_t i = 0; i < e.values.size(); i++) {
        pb_enum_value_descriptor_t d = {e.values[i].first, str(e.values[i].second)};
        memcpy(vals + i * sizeof d, &d, sizeof d);
      }
      pb_enum_descriptor_t d = {{(const pb_enum_value_descriptor_t *)vals, e.values.size()}};
      auto *m = alloc<pb_enum_descriptor_t>();
      memcpy((void *)m, &d, sizeof d);
      edesc.push_back(m);
    }
    for (size_t i = 0; i < msgs.size(); i++) {
      desc.push_back(alloc<pb_descriptor_t>());
      odesc.emplace_back();
      for (int o = 0; o < msgs[i].oneofs; o++)
        odesc[i].push_back(alloc<pb_oneof_descriptor_t>());
    }
    for (size_t i = 0; i < msgs.size(); i++) {
      MsgDef &m = msgs[i];
      for (int g = -1; g < m.extgroups; g++) {
        std::vector<pb_field_descriptor_t> fs;
        fs.reserve(m.fields.size() + 1);
        std::vector<std::vector<size_t>> idx((size_t)m.oneofs);
        for (auto &f : m.fields) {
          if (f.ext != g) continue;
          const void *refer = f.nested >= 0 && !f.opaque ? (const void *)desc[(size_t)f.nested]
            : f.enumidx >= 0 ? (const void *)edesc[(size_t)f.enumidx] : nullptr;
          const void *value = nullptr;
          if (f.oneof >= 0) {
            value = odesc[i][(size_t)f.oneof];
            idx[(size_t)f.oneof].push_back(fs.size());
          } else if (f.hasdef) {
            char *p = alloc<char>(32);
            Native n;
            if (f.def.is_str()) {
              pb_string_t s;
              s.data = (uint8_t *)alloc<char>(f.def.s.size() + 1);
              memcpy(s.data, f.def.s.data(), f.def.s.size());
              s.size = f.def.s.size();
              memcpy(p, &s, sizeof s);
            } else {
              to_native(f.def, n);
              memcpy(p, n.b, native_size(f.type));
            }
            value = p;
          }
          pb_field_descriptor_t d = {f.tag, str(f.name), f.opaque ? PB_TYPE_BYTES : f.type, f.label, refer,
            value, (uint8_t)(f.packed ? PB_FLAG_PACKED : 0)};
          // const members: store through memcpy
          fs.emplace_back(d);
        }
        char *arr = alloc<char>(sizeof(pb_field_descriptor_t) * fs.size());
        memcpy(arr, (const void *)fs.data(), sizeof(pb_field_descriptor_t) * fs.size());
        pb_descriptor_t d = {{fs.empty() ? nullptr : (const pb_field_descriptor_t *)arr, fs.size()}, nullptr};
        if (g < 0) {
          memcpy((void *)desc[i], &d, sizeof d);
          for (int o = 0; o < m.oneofs; o++) {
            auto &ix = idx[(size_t)o];
            size_t *p = alloc<size_t>(ix.size());
            memcpy(p, ix.data(), sizeof(size_t) * ix.size());
            pb_oneof_descriptor_t od = {desc[i], {p, ix.size()}};
            memcpy((void *)odesc[i][(size_t)o], &od, sizeof od);
          }
        } else {
          auto *x = alloc<pb_descriptor_t>();
          memcpy((void *)x, &d, sizeof d);
          pb_descriptor_extend(desc[i], x);
        }
      }
    }
  }
  std::string show() const {
    std::string o;
    for (size_t i = 0; i < msgs.size(); i++) {
      o += "M" + std::to_string(i) + "{";
      for (auto &f : msgs[i].fields) {
        o += " ";
        o += f.label == PB_LABEL_REQUIRED ? "req " : f.label == PB_LABEL_REPEATED ? "rep " :
          f.label == PB_LABEL_ONEOF ? "oneof" + std::to_string(f.oneof) + " " : "opt ";
        o += f.opaque ? "bytes:" : "";
        o += f.nested >= 0 ? "M" + std::to_string(f.nested) : type_name(f.type);
        o += "=" + std::to_string(f.tag);
        if (f.packed) o += "[packed]";
        if (f.ext >= 0) o += "[ext]";
        if (f.hasdef) o += "[def " + f.def.show() + "]";
        o += ";";
      }
      o += " } ";
    }
    return o;
  }
};

inline uint32_t random_tag(Rng &r, bool big) {
  if (big) switch (r.below(6)) {
    case 0: return 14 + (uint32_t)r.below(4);           // 1/2 byte boundary
    case 1: return 2046 + (uint32_t)r.below(4);         // 2/3 byte boundary
    case 2: return 262142 + (uint32_t)r.below(4);
    case 3: return (1u << 29) - 1 - (uint32_t)r.below(3);
    default: break;
  }
  return 1 + (uint32_t)r.below(12);
}

inline void random_universe(Rng &r, Universe &u, const Params &p = Params()) {
  int ne = 1 + (int)r.below(2);
  for (int e = 0; e < ne; e++) {
    EnumDef d; std::set<int32_t> nums;
    int n = 1 + (int)r.below(5); bool neg = r.one_in(3);
#ifdef MON_DBG   // the implicit default (0) of an enum field is asserted to be a value
    nums.insert(0);
#endif
    while ((int)nums.size() < n)
      nums.insert(r.one_in(3) ? (int32_t)r.below(100000) - (neg ? 50000 : 0) : (int32_t)r.below(8));
    int k = 0;
    for (int32_t x : nums) d.values.push_back({x, "E" + std::to_string(e) + "_V" + std::to_string(k++)});
    u.enums.push_back(d);
  }
  u.msgs.resize((size_t)p.messages);
  // Many fields, which none of the messages below it contains.
  int wide = p.wide && r.one_in((uint64_t)p.wide) ? (r.below(3) ? 0 : (int)r.below((uint64_t)p.messages)) : -1;
  if (wide >= 0) mon::count("wide-schemas");
  for (int i = 0; i < p.messages; i++) {
    MsgDef &m = u.msgs[(size_t)i];
    int nf = i == wide ? 65 + (int)r.below(r.one_in(3) ? 240 : 70) : i == 0 ? 2 + (int)r.below((uint64_t)p.max_fields - 1) : (int)r.below((uint64_t)p.max_fields + 1);
    if (p.oneofs && r.flip()) m.oneofs = 1 + (int)r.below(2);
    if (p.extensions && r.one_in(3)) m.extgroups = 1 + (int)r.below(r.one_in(8) ? 7 : 2);
    std::set<uint32_t> tags;
    bool big = p.big_tags && r.one_in(3);
    for (int k = 0; k < nf; k++) {
      FieldDef f;
      do f.tag = tags.size() > 8 && r.flip() ? 1 + (uint32_t)r.below(std::max<size_t>(40, 2 * tags.size())) : random_tag(r, big); while (tags.count(f.tag));
      tags.insert(f.tag);
      unsigned kind = (unsigned)r.below(10);
      if (kind < 3 && (i != wide || kind < 1) && p.submessages && p.messages > 1 && (p.recursion || i + 1 < p.messages)) {
        f.type = PB_TYPE_MESSAGE;
        f.nested = p.recursion && r.one_in(4) ? (int)r.below((uint64_t)p.messages)
          : i + 1 < p.messages ? r.range(i + 1, p.messages - 1) : (p.recursion ? (int)r.below((uint64_t)p.messages) : -1);
        if (f.nested < 0 || (f.nested == wide && wide <= i)) { f.nested = -1; f.type = PB_TYPE_UINT32; }
      } else if (kind < 5 && p.strings) {
        f.type = r.flip() ? PB_TYPE_STRING : PB_TYPE_BYTES;
      } else f.type = ALL_TYPES[r.below(N_SCALAR)];
      if (p.opaque && f.type == PB_TYPE_MESSAGE) f.opaque = !r.one_in(3);
      if (f.type == PB_TYPE_ENUM) f.enumidx = (int)r.below((uint64_t)ne);
      unsigned l = (unsigned)r.below(10);
      f.label = l < 4 ? PB_LABEL_REPEATED : l < 5 && p.required ? PB_LABEL_REQUIRED : PB_LABEL_OPTIONAL;
      if (f.label == PB_LABEL_REPEATED && wiretype(f.type) != WT_LEN && p.packed) f.packed = r.one_in(2);
      if (m.extgroups && r.one_in(3)) {
        f.ext = (int)r.below((uint64_t)m.extgroups);
        if (f.label == PB_LABEL_REQUIRED) f.label = PB_LABEL_OPTIONAL;
      }
      if (p.required_heavy && f.label == PB_LABEL_OPTIONAL && r.flip() &&
          (f.type != PB_TYPE_MESSAGE || f.nested > i || r.one_in(8))) f.label = PB_LABEL_REQUIRED;
      if (m.oneofs && f.ext < 0 && f.label != PB_LABEL_REPEATED && r.flip()) {
        f.label = PB_LABEL_ONEOF; f.oneof = (int)r.below((uint64_t)m.oneofs);
      } else if (p.defaults && f.type != PB_TYPE_MESSAGE && f.label != PB_LABEL_REPEATED &&
          (r.one_in(3) || (f.type == PB_TYPE_ENUM && f.label == PB_LABEL_OPTIONAL))) {
        f.hasdef = true;
        f.def = random_val(r, f.type);
        if (f.type == PB_TYPE_ENUM)
          f.def.u = (uint32_t)r.pick(u.enums[(size_t)f.enumidx].values).first;
      }
      f.name = "f" + std::to_string(f.tag);
      m.fields.push_back(f);
    }
    if (p.tower) {
      FieldDef f; f.type = PB_TYPE_MESSAGE; f.nested = (i + 1) % p.messages; f.tower = true;
      do f.tag = tags.size() > 8 ? 1 + (uint32_t)r.below(2 * tags.size() + 40) : random_tag(r, big); while (tags.count(f.tag));
      if (m.extgroups && r.one_in(4)) f.ext = (int)r.below((uint64_t)m.extgroups);
      else if (r.one_in(8)) f.label = PB_LABEL_REQUIRED;
      f.name = "f" + std::to_string(f.tag);
      m.fields.push_back(f);
    }
    std::sort(m.fields.begin(), m.fields.end(),
      [](const FieldDef &a, const FieldDef &b) { return a.tag < b.tag; });
  }
  u.build();
}

// A value valid for a field (enum values drawn from the declared ones).
inline Val field_val(Rng &r, const Universe &u, const FieldDef &f, bool big = false) {
  Val v = random_val(r, f.type, big);
  if (f.type == PB_TYPE_ENUM) {
    auto &e = u.enums[(size_t)f.enumidx];
    v.u = (uint32_t)e.values[r.below(e.values.size())].first;
  }
  return v;
}

}  // namespace sch
#endif
