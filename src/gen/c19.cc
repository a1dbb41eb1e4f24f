// C19: generated functions against the generic ones and against libprotobuf.
//  1. random calls of generated accessors on one journal, the generic operation
//     on a twin; results, values and bytes compared after every call, contents
//     compared with libprotobuf's view of the bytes.
//  2. random messages encoded through generated encoders, parsed by libprotobuf.
//  3. random messages serialized by libprotobuf, decoded through generated
//     decoders.
#include <cstring>
#include <fstream>
#include <memory>
#include <random>
#include <vector>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "out.hh"
#include "tab.h"
using namespace google::protobuf;
using std::string;
using std::vector;

static DescriptorPool pool;
static std::mt19937_64 rng;
static uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
static bool one_in(uint64_t n) { return !rnd(n); }

static std::map<string, vector<const g_accessor *>> accessors;      // by message
static std::map<std::pair<string, pb_tag_t>, const g_accessor *> encoders;
static std::map<std::pair<string, pb_tag_t>, vector<const g_accessor *>> value_encoders;
static std::map<string, const g_class *> classes;
static std::map<string, const pb_descriptor_t *> descriptors;
static std::map<const pb_descriptor_t *, string> names;
static std::map<string, const pb_oneof_descriptor_t *> oneofs;

// -- random values ------------------------------------------------------------
static uint64_t bits() {
  switch (rnd(5)) {
    case 0: return rnd(3);
    case 1: return ~rnd(3);
    case 2: return 1ull << rnd(64);
    case 3: return (1ull << rnd(64)) - 1;
    default: return rng() >> rnd(64);
  }
}
static float rand_float() {
  const float l[] = { 0, -0.0f, 1, -1.5f, INFINITY, -INFINITY, NAN, 1e-45f, 3.4028234e38f };
  return one_in(2) ? l[rnd(9)] : (float)(int64_t)bits() / 7;
}
static double rand_double() {
  const double l[] = { 0, -0.0, 1, -1.5, INFINITY, -INFINITY, NAN, 5e-324, 1.7e308 };
  return one_in(2) ? l[rnd(9)] : (double)(int64_t)bits() / 7;
}
static string rand_string(bool bytes) {
  string s;
  size_t n = one_in(12) ? 100 + rnd(200) : rnd(8);
  while (s.size() < n)
    s += bytes ? string(1, (char)rng()) : one_in(8) ? string("\xc3\xa9") :
         string(1, (char)(one_in(10) ? 0 : ' ' + rnd(90)));
  return s;
}
static int rand_enum(const EnumDescriptor *e) {
  return e->value(rnd(e->value_count()))->number();
}

static bool supported(const FieldDescriptor *f) { return f->type() != FieldDescriptor::TYPE_GROUP; }

static void fill(Message *m, int depth, bool extensions, int sparse, int *room = nullptr) {
  int all = 300;          // submessages: types with many recursive fields would explode
  if (!room) room = &all;
  auto *d = m->GetDescriptor();
  auto *r = m->GetReflection();
  vector<const FieldDescriptor *> list;
  for (int i = 0; i < d->field_count(); i++) list.push_back(d->field(i));
  if (extensions) pool.FindAllExtensions(d, &list);
  for (auto *f : list) {
    if (!supported(f) || (!f->is_required() && one_in(sparse))) continue;
    bool msg = f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE;
    if (msg && (depth <= 0 || *room <= 0)) continue;
    int n = f->is_repeated() ? (one_in(10) ? 20 : 1 + rnd(4)) : 1;
    if (msg && n > 3) n = 3;
    for (int i = 0; i < n; i++) {
      bool rep = f->is_repeated();
      switch (f->cpp_type()) {
#define SET(T, V) rep ? r->Add##T(m, f, V) : r->Set##T(m, f, V)
        case FieldDescriptor::CPPTYPE_INT32: SET(Int32, (int32_t)bits()); break;
        case FieldDescriptor::CPPTYPE_INT64: SET(Int64, (int64_t)bits()); break;
        case FieldDescriptor::CPPTYPE_UINT32: SET(UInt32, (uint32_t)bits()); break;
        case FieldDescriptor::CPPTYPE_UINT64: SET(UInt64, bits()); break;
        case FieldDescriptor::CPPTYPE_BOOL: SET(Bool, one_in(2)); break;
        case FieldDescriptor::CPPTYPE_FLOAT: SET(Float, rand_float()); break;
        case FieldDescriptor::CPPTYPE_DOUBLE: SET(Double, rand_double()); break;
        case FieldDescriptor::CPPTYPE_ENUM: SET(EnumValue, rand_enum(f->enum_type())); break;
        case FieldDescriptor::CPPTYPE_STRING:
          SET(String, rand_string(f->type() == FieldDescriptor::TYPE_BYTES)); break;
        case FieldDescriptor::CPPTYPE_MESSAGE:
          --*room;
          fill(rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth - 1, extensions,
               depth > 2 ? sparse : sparse > 2 ? sparse - 1 : 2, room);
          break;
      }
    }
  }
}

static string serialize(const Message &m) {
  string s;
  {
    io::StringOutputStream out(&s);
    io::CodedOutputStream coded(&out);
    coded.SetSerializationDeterministic(true);
    m.SerializePartialToCodedStream(&coded);
  }
  return s;
}

static size_t size_of(const FieldDescriptor *f) {
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_BOOL: return 1;
    case FieldDescriptor::CPPTYPE_INT64: case FieldDescriptor::CPPTYPE_UINT64:
    case FieldDescriptor::CPPTYPE_DOUBLE: return 8;
    case FieldDescriptor::CPPTYPE_STRING: return sizeof(pb_string_t);
    default: return 4;
  }
}

static const FieldDescriptor *find(const Descriptor *d, pb_tag_t tag) {
  auto *f = d->FindFieldByNumber(tag);
  return f ? f : pool.FindExtensionByNumber(d, tag);
}

static string hex(const string &s) {
  string o;
  for (size_t i = 0; i < s.size() && i < 200; i++) {
    char b[3];
    snprintf(b, 3, "%02x", (uint8_t)s[i]);
    o += b;
  }
  return o + (s.size() > 200 ? "..." : "");
}

// -- allocations of encoders --------------------------------------------------
static long live = 0;
static void *a_alloc(void *, size_t n) { live++; return malloc(n); }
static void *a_resize(void *, void *b, size_t n) { if (!b) live++; return realloc(b, n); }
static void a_free(void *, void *b) { live--; free(b); }
static pb_allocator_t ledger = { { a_alloc, a_resize, a_free }, nullptr };

// -- accessors ----------------------------------------------------------------
static string journal_bytes(pb_journal_t *j) {
  return pb_journal_size(j) ? string((const char *)pb_journal_data(j), pb_journal_size(j)) : "";
}

struct Handle { string type; pb_message_t a, b; };

struct Value {              // argument of a put or encode
  union { uint64_t u64; uint32_t u32; int32_t i32; float f; double d; uint8_t b; pb_string_t s; } v;
  string data;
  void set(const FieldDescriptor *f) {
    memset(&v, 0, sizeof v);
    switch (f->cpp_type()) {
      case FieldDescriptor::CPPTYPE_BOOL: v.b = one_in(2); break;
      case FieldDescriptor::CPPTYPE_FLOAT: v.f = rand_float(); break;
      case FieldDescriptor::CPPTYPE_DOUBLE: v.d = rand_double(); break;
      case FieldDescriptor::CPPTYPE_ENUM: v.i32 = rand_enum(f->enum_type()); break;
      case FieldDescriptor::CPPTYPE_INT64: case FieldDescriptor::CPPTYPE_UINT64:
        v.u64 = bits(); break;
      case FieldDescriptor::CPPTYPE_STRING:
        data = rand_string(f->type() == FieldDescriptor::TYPE_BYTES);
        v.s.data = (uint8_t *)&data[0], v.s.size = data.size();
        break;
      default: v.u32 = (uint32_t)bits();
    }
  }
};

// Value received by a get, comparable.
static string received(const FieldDescriptor *f, const void *p, pb_error_t e) {
  if (e) return "error " + std::to_string(e);
  if (f->cpp_type() == FieldDescriptor::CPPTYPE_STRING) {
    auto *s = (const pb_string_t *)p;
    return "=" + (s->size ? string((const char *)s->data, s->size) : "");
  }
  return "=" + string((const char *)p, size_of(f));
}

static const FieldDescriptor *target(const string &message, const g_accessor *x) {
  auto *d = pool.FindMessageTypeByName(message);
  const FieldDescriptor *f = nullptr;
  for (size_t i = 0; i < x->size; i++) {
    f = find(d, x->tags[i]);
    if (!f) abort();
    d = f->message_type();
  }
  return f;
}

// libprotobuf's view of a field; false if it isn't set or can't be told.
static bool view(const Message &root, const g_accessor *x, string *value, bool *presence) {
  const Message *m = &root;
  const FieldDescriptor *f = nullptr;
  *presence = true;
  for (size_t i = 0; i < x->size; i++) {
    f = find(m->GetDescriptor(), x->tags[i]);
    if (f->is_repeated()) { *presence = false; return false; }
    if (i + 1 < x->size) {
      if (!m->GetReflection()->HasField(*m, f)) return false;
      m = &m->GetReflection()->GetMessage(*m, f);
    }
  }
  auto *r = m->GetReflection();
  if (!f->has_presence()) *presence = false;
  if (!r->HasField(*m, f)) return false;
  auto raw = [&](auto v) { value->assign((const char *)&v, sizeof v); };
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: raw(r->GetInt32(*m, f)); break;
    case FieldDescriptor::CPPTYPE_INT64: raw(r->GetInt64(*m, f)); break;
    case FieldDescriptor::CPPTYPE_UINT32: raw(r->GetUInt32(*m, f)); break;
    case FieldDescriptor::CPPTYPE_UINT64: raw(r->GetUInt64(*m, f)); break;
    case FieldDescriptor::CPPTYPE_BOOL: raw((uint8_t)r->GetBool(*m, f)); break;
    case FieldDescriptor::CPPTYPE_FLOAT: raw(r->GetFloat(*m, f)); break;
    case FieldDescriptor::CPPTYPE_DOUBLE: raw(r->GetDouble(*m, f)); break;
    case FieldDescriptor::CPPTYPE_ENUM: raw((int32_t)r->GetEnumValue(*m, f)); break;
    case FieldDescriptor::CPPTYPE_STRING: *value = r->GetString(*m, f); break;
    default: value->clear();
  }
  *value = "=" + *value;
  return true;
}

static void accessor_round(const string &type, DynamicMessageFactory &factory) {
  auto *proto = factory.GetPrototype(pool.FindMessageTypeByName(type));
  std::unique_ptr<Message> start(proto->New());
  if (!one_in(4)) fill(start.get(), 1 + rnd(3), true, 2 + rnd(3));
  string bytes = serialize(*start);
  if (bytes.size() > 4000) {
    start->Clear();
    bytes.clear();
  }
  auto open = [&]() {
    return bytes.empty() ? pb_journal_create_empty()
                         : pb_journal_create((const uint8_t *)bytes.data(), bytes.size());
  };
  pb_journal_t ja = open(), jb = open();
  auto *cls = classes.at(type);
  vector<Handle> h(1);
  h[0].type = type;
  g_call c;
  memset(&c, 0, sizeof c);
  c.journal = &ja;
  cls->create(&c);
  h[0].a = c.made;
  h[0].b = pb_message_create(descriptors.at(type), &jb);
  string trace;
  int steps = 4 + rnd(30);
  for (int s = 0; s < steps; s++) {
    size_t k = one_in(2) ? 0 : rnd(h.size());
    auto it = accessors.find(h[k].type);
    if (it == accessors.end() || it->second.empty()) continue;
    auto *x = it->second[rnd(it->second.size())];
    pb_message_t *a = &h[k].a, *b = &h[k].b;
    auto *f = x->size ? target(h[k].type, x) : nullptr;
    Value v;
    alignas(16) uint8_t ga[32], gb[32];
    memset(ga, 0xaa, sizeof ga);
    memset(gb, 0xaa, sizeof gb);
    memset(&c, 0, sizeof c);
    c.message = a;
    c.out = ga;
    if (x->op == G_PUT) v.set(f);
    c.in = &v.v;
    trace = x->name;
    x->call(&c);

    const pb_tag_t *t = x->tags;
    size_t n = x->size;
    bool one = n == 1;
    string ra, rb;
    switch (x->op) {
      case G_HAS:
        ra = std::to_string(!!c.result);
        rb = std::to_string(!!(one ? pb_message_has(b, *t) : pb_message_nested_has(b, t, n)));
        break;
      case G_GET: {
        auto e = one ? pb_message_get(b, *t, gb) : pb_message_nested_get(b, t, n, gb);
        ra = received(f, ga, c.error);
        rb = received(f, gb, e);
        break;
      }
      case G_PUT: {
        auto e = one ? pb_message_put(b, *t, &v.v) : pb_message_nested_put(b, t, n, &v.v);
        ra = std::to_string(c.error), rb = std::to_string(e);
        break;
      }
      case G_ERASE: {
        auto e = one ? pb_message_erase(b, *t) : pb_message_nested_erase(b, t, n);
        ra = std::to_string(c.error), rb = std::to_string(e);
        break;
      }
      case G_HAS_VALUE: {
        auto e = one ? pb_message_match(b, *t, &x->number)
                     : pb_message_nested_match(b, t, n, &x->number);
        ra = std::to_string(!!c.result), rb = std::to_string(!!e);
        break;
      }
      case G_PUT_VALUE: {
        auto e = one ? pb_message_put(b, *t, &x->number)
                     : pb_message_nested_put(b, t, n, &x->number);
        ra = std::to_string(c.error), rb = std::to_string(e);
        break;
      }
      case G_CREATE: {
        pb_message_t m = one ? pb_message_create_within(b, *t) : pb_message_create_nested(b, t, n);
        ra = std::to_string(pb_message_error(&c.made)), rb = std::to_string(pb_message_error(&m));
        if (pb_message_valid(&m) &&
            pb_message_descriptor(&c.made) != descriptors.at(f->message_type()->full_name()))
          ra += " of another type";
        if (ra == rb && pb_message_valid(&m)) {
          Handle nh{ f->message_type()->full_name(), c.made, m };
          if (h.size() < 6) h.push_back(nh);
          else h[1 + rnd(h.size() - 1)] = nh;
        }
        break;
      }
      case G_CURSOR: {
        pb_cursor_t cb = one ? pb_cursor_create(b, *t) : pb_cursor_create_nested(b, t, n);
        pb_cursor_t ca = c.cursor;
        // Go over a few elements, edit through one of them
        for (int i = 0; i < 5; i++) {
          ra += std::to_string(pb_cursor_error(&ca)) + ",";
          rb += std::to_string(pb_cursor_error(&cb)) + ",";
          if (!pb_cursor_valid(&cb) || !pb_cursor_valid(&ca)) break;
          ra += std::to_string(ca.tag), rb += std::to_string(cb.tag);
          if (one_in(3)) {
            pb_message_t ma = pb_message_create_from_cursor(&ca),
                         mb = pb_message_create_from_cursor(&cb);
            ra += std::to_string(pb_message_error(&ma));
            rb += std::to_string(pb_message_error(&mb));
            if (pb_message_valid(&ma) && pb_message_valid(&mb) && h.size() < 6 &&
                pb_message_descriptor(&ma) == descriptors.at(f->message_type()->full_name()))
              h.push_back({ f->message_type()->full_name(), ma, mb });
          }
          if (!pb_cursor_next(&ca) | !pb_cursor_next(&cb)) { i = 5; }
        }
        pb_cursor_destroy(&ca);
        pb_cursor_destroy(&cb);
        break;
      }
      case G_CASE: {
        pb_oneof_t o = pb_oneof_create(oneofs.at(x->what), b);
        ra = std::to_string(c.tag), rb = std::to_string(pb_oneof_case(&o));
        pb_oneof_destroy(&o);
        break;
      }
    }
    out::evaluations++;
    const char *ops[] = { "has", "get", "put", "erase", "has-value", "put-value", "create",
                          "cursor", "case" };
    out::count("calls");
    out::count(string("op:") + ops[x->op]);
    if (n > 1) out::count("nested-path:" + std::to_string(n > 4 ? 4 : n));
    if (x->extension) out::count("extension-accessors");
    if (x->op == G_GET && !ra.compare(0, 1, "=")) out::count("values-read");
    if (f && f->containing_oneof()) out::count("oneof-member-accessors");
    if (f && k) out::count("on-submessages");
    string key = string(ops[x->op]) + (n > 1 ? ":nested" : "") + (x->extension ? ":extension" : "");
    if (ra != rb)
      out::violation("result:" + key, "%s answers %s, the generic operation %s (bytes %s)",
                     x->name, hex(ra).c_str(), hex(rb).c_str(), hex(journal_bytes(&jb)).c_str());
    string now_a = journal_bytes(&ja), now_b = journal_bytes(&jb);
    if (now_a != now_b) {
      out::violation("bytes:" + key, "%s makes %s, the generic operation %s", x->name,
                     hex(now_a).c_str(), hex(now_b).c_str());
      break;
    }
    if (pb_journal_error(&ja) != pb_journal_error(&jb))
      out::violation("journal:" + key, "%s leaves another journal state", x->name);
    out::distinct.insert(out::hash(key + (f ? string(f->type_name()) +
      std::to_string(f->label()) + (f->containing_oneof() ? "o" : "") : "") +
      (ra.size() < 3 || ra[0] == 'e' ? ra : "value") + std::to_string(n)));
    out::states.insert(out::hash(type + now_a));
    if (now_a.size() > 20000) break;
  }
  if (one_in(3)) {
    memset(&c, 0, sizeof c);
    c.message = &h[0].a;
    // Destroying other handles mustn't change the journal.
    for (size_t k = 1; k < h.size(); k++) {
      g_call d;
      memset(&d, 0, sizeof d);
      d.message = &h[k].a;
      auto *kc = classes.at(h[k].type);
      if (kc->destroy) kc->destroy(&d);
      out::count("messages-destroyed");
      if (pb_message_valid(&h[k].a))
        out::violation("destroy", "message of type %s valid after destruction", h[k].type.c_str());
    }
  }

  // The independent view of the bytes built
  string final = journal_bytes(&ja);
  std::unique_ptr<Message> m(proto->New());
  if (!m->ParsePartialFromString(final))
    out::violation("unreadable", "libprotobuf can't read the message %s built through %s",
                   hex(final).c_str(), type.c_str());
  else {
    out::count("messages-read-by-libprotobuf");
    for (auto *x : accessors[type]) {
      if (x->op != G_HAS && x->op != G_GET && x->op != G_CASE) continue;
      memset(&c, 0, sizeof c);
      alignas(16) uint8_t ga[32];
      memset(ga, 0, sizeof ga);
      c.message = &h[0].a;
      c.out = ga;
      x->call(&c);
      if (x->op == G_CASE) {
        auto *d = m->GetDescriptor();
        for (int i = 0; i < d->oneof_decl_count(); i++)
          if (d->oneof_decl(i)->full_name() == x->what) {
            auto *of = m->GetReflection()->GetOneofFieldDescriptor(*m, d->oneof_decl(i));
            out::count("cases-compared");
            if ((of ? (pb_tag_t)of->number() : 0) != c.tag)
              out::violation("case", "%s answers %u, libprotobuf %d (bytes %s)", x->name, c.tag,
                             of ? of->number() : 0, hex(final).c_str());
          }
        continue;
      }
      string want;
      bool presence, set = view(*m, x, &want, &presence);
      auto *f = target(type, x);
      if (x->op == G_HAS) {
        if (!set && !presence) continue;
        out::count("presence-compared");
        if (!!c.result != set)
          out::violation("presence", "%s answers %d, libprotobuf %d (bytes %s)", x->name,
                         !!c.result, set, hex(final).c_str());
      } else if (set) {
        string got = received(f, ga, c.error);
        out::count("values-compared");
        if (got != want)
          out::violation(string("value:") + f->type_name(), "%s answers %s, libprotobuf %s (bytes %s)",
                         x->name, hex(got).c_str(), hex(want).c_str(), hex(final).c_str());
      }
    }
  }
  g_call d;
  memset(&d, 0, sizeof d);
  d.message = &h[0].a;
  cls->destroy(&d);
  if (pb_message_valid(&h[0].a))
    out::violation("destroy", "message of type %s valid after destruction", type.c_str());
  pb_journal_destroy(&ja);
  pb_journal_destroy(&jb);
}

// -- encoders -----------------------------------------------------------------
static pb_encoder_t new_encoder(const string &type) {
  g_call c;
  memset(&c, 0, sizeof c);
  c.allocator = &ledger;
  auto *cls = classes.at(type);
  (one_in(2) ? cls->encoder_create_with : cls->encoder_create)(&c);
  if (pb_encoder_descriptor(&c.made_encoder) != descriptors.at(type))
    out::violation("encoder-descriptor", "encoder of %s has another descriptor", type.c_str());
  return c.made_encoder;
}

static void drop_encoder(const string &type, pb_encoder_t *e) {
  g_call c;
  memset(&c, 0, sizeof c);
  c.encoder = e;
  classes.at(type)->encoder_destroy(&c);
}

static bool encode(const Message &m, pb_encoder_t *e) {
  auto *d = m.GetDescriptor();
  auto *r = m.GetReflection();
  vector<const FieldDescriptor *> list;
  r->ListFields(m, &list);
  for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[rnd(i)]);
  for (auto *f : list) {
    if (f->is_extension()) continue;
    auto *x = encoders.at({ d->full_name(), (pb_tag_t)f->number() });
    int n = f->is_repeated() ? r->FieldSize(m, f) : 1;
    bool rep = f->is_repeated();
    string raw;
    vector<string> strings;
    vector<pb_string_t> refs;
    vector<pb_encoder_t> nested;
    strings.reserve(n);
    for (int i = 0; i < n; i++) {
      auto add = [&](auto v) { raw.append((const char *)&v, sizeof v); };
#define GET(T) (rep ? r->GetRepeated##T(m, f, i) : r->Get##T(m, f))
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_INT32: add(GET(Int32)); break;
        case FieldDescriptor::CPPTYPE_INT64: add(GET(Int64)); break;
        case FieldDescriptor::CPPTYPE_UINT32: add(GET(UInt32)); break;
        case FieldDescriptor::CPPTYPE_UINT64: add(GET(UInt64)); break;
        case FieldDescriptor::CPPTYPE_BOOL: add((uint8_t)GET(Bool)); break;
        case FieldDescriptor::CPPTYPE_FLOAT: add(GET(Float)); break;
        case FieldDescriptor::CPPTYPE_DOUBLE: add(GET(Double)); break;
        case FieldDescriptor::CPPTYPE_ENUM: add((int32_t)GET(EnumValue)); break;
        case FieldDescriptor::CPPTYPE_STRING: {
          strings.push_back(GET(String));
          pb_string_t s = { (uint8_t *)&strings.back()[0], strings.back().size() };
          refs.push_back(s);
          break;
        }
        case FieldDescriptor::CPPTYPE_MESSAGE:
          nested.push_back(new_encoder(f->message_type()->full_name()));
          if (!encode(GET(Message), &nested.back())) return false;
      }
    }
    g_call c;
    memset(&c, 0, sizeof c);
    c.encoder = e;
    c.size = n;
    // memcpy into storage of the right alignment
    std::unique_ptr<uint64_t[]> aligned(new uint64_t[raw.size() / 8 + 1]);
    memcpy(aligned.get(), raw.data(), raw.size());
    c.in = !nested.empty() ? (const void *)nested.data()
         : !refs.empty() ? (const void *)refs.data() : aligned.get();
    auto &variants = value_encoders[{ d->full_name(), (pb_tag_t)f->number() }];
    if (!variants.empty() && one_in(2)) {
      for (int i = 0; i < n && !c.error; i++) {
        int32_t want;
        memcpy(&want, raw.data() + 4 * i, 4);
        vector<const g_accessor *> fit;
        for (auto *y : variants) if (y->number == want) fit.push_back(y);
        if (fit.empty()) return true;
        fit[rnd(fit.size())]->call(&c);
        out::count("op:encode-value");
      }
    } else {
      x->call(&c);
      out::count(rep ? "op:encode-repeated" : "op:encode");
    }
    out::count("calls");
    out::evaluations++;
    for (auto &y : nested) drop_encoder(f->message_type()->full_name(), &y);
    if (c.error) {
      out::violation("encode-error", "%s answers with error %d", x->name, c.error);
      return false;
    }
  }
  return true;
}

static void encoder_round(const string &type, DynamicMessageFactory &factory) {
  auto *proto = factory.GetPrototype(pool.FindMessageTypeByName(type));
  std::unique_ptr<Message> first(proto->New()), m(proto->New()), back(proto->New());
  fill(first.get(), 1 + rnd(4), false, 2 + rnd(3));
  if (!m->ParsePartialFromString(serialize(*first))) abort();
  live = 0;
  pb_encoder_t e = new_encoder(type);
  if (encode(*m, &e)) {
    auto *b = pb_encoder_buffer(&e);
    string bytes = pb_buffer_size(b) ? string((const char *)pb_buffer_data(b), pb_buffer_size(b)) : "";
    out::count("messages-encoded");
    if (!back->ParsePartialFromString(bytes))
      out::violation("encoded-unreadable", "libprotobuf can't read %s encoded as %s",
                     type.c_str(), hex(bytes).c_str());
    else if (serialize(*back) != serialize(*m))
      out::violation("encoded-content", "%s was encoded as %s", m->ShortDebugString().substr(0, 600).c_str(),
                     back->ShortDebugString().substr(0, 600).c_str());
    out::states.insert(out::hash(type + bytes));
  }
  drop_encoder(type, &e);
  if (live) out::violation("encoder-leak", "%ld blocks of encoders of %s aren't freed", live, type.c_str());
}

// -- decoders -----------------------------------------------------------------
static pb_error_t decode(const string &type, const pb_decoder_t *d, Message *into);

extern "C" pb_error_t on_field(const pb_field_descriptor_t *fd, const void *v, void *user) {
  auto *m = (Message *)user;
  auto *r = m->GetReflection();
  auto *f = find(m->GetDescriptor(), fd->tag);
  out::count("fields-decoded");
  out::evaluations++;
  if (!f) {
    out::violation("decoded-field", "handler gets field %u", fd->tag);
    return PB_ERROR_NONE;
  }
  bool rep = f->is_repeated();
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: SET(Int32, *(const int32_t *)v); break;
    case FieldDescriptor::CPPTYPE_INT64: SET(Int64, *(const int64_t *)v); break;
    case FieldDescriptor::CPPTYPE_UINT32: SET(UInt32, *(const uint32_t *)v); break;
    case FieldDescriptor::CPPTYPE_UINT64: SET(UInt64, *(const uint64_t *)v); break;
    case FieldDescriptor::CPPTYPE_BOOL: SET(Bool, *(const uint8_t *)v); break;
    case FieldDescriptor::CPPTYPE_FLOAT: SET(Float, *(const float *)v); break;
    case FieldDescriptor::CPPTYPE_DOUBLE: SET(Double, *(const double *)v); break;
    case FieldDescriptor::CPPTYPE_ENUM: SET(EnumValue, *(const pb_enum_t *)v); break;
    case FieldDescriptor::CPPTYPE_STRING: {
      auto *s = (const pb_string_t *)v;
      SET(String, s->size ? string((const char *)s->data, s->size) : string());
      break;
    }
    case FieldDescriptor::CPPTYPE_MESSAGE:
      return decode(f->message_type()->full_name(), (const pb_decoder_t *)v,
                    rep ? r->AddMessage(m, f) : r->MutableMessage(m, f));
  }
  return PB_ERROR_NONE;
}

static pb_error_t decode(const string &type, const pb_decoder_t *d, Message *into) {
  if (pb_decoder_descriptor(d) != descriptors.at(type))
    out::violation("decoder-descriptor", "decoder of %s has another descriptor", type.c_str());
  g_call c;
  memset(&c, 0, sizeof c);
  c.decoder = (pb_decoder_t *)d;
  c.handler = on_field;
  c.user = into;
  classes.at(type)->decode(&c);
  out::count("op:decode");
  out::count("calls");
  return c.error;
}

static void decoder_round(const string &type, DynamicMessageFactory &factory) {
  auto *proto = factory.GetPrototype(pool.FindMessageTypeByName(type));
  std::unique_ptr<Message> first(proto->New()), m(proto->New()), back(proto->New());
  fill(first.get(), 1 + rnd(4), true, 2 + rnd(3));
  string bytes = serialize(*first);
  if (!m->ParsePartialFromString(bytes)) abort();
  pb_buffer_t b = bytes.empty() ? pb_buffer_create_empty()
                                : pb_buffer_create((const uint8_t *)bytes.data(), bytes.size());
  g_call c;
  memset(&c, 0, sizeof c);
  c.buffer = &b;
  classes.at(type)->decoder_create(&c);
  pb_decoder_t decoder = c.made_decoder;
  auto e = decode(type, &decoder, back.get());
  c.decoder = &decoder;
  classes.at(type)->decoder_destroy(&c);
  pb_buffer_destroy(&b);
  out::count("messages-decoded");
  if (e) out::violation("decode-error", "decoding %s of %s fails with error %d", type.c_str(),
                        hex(bytes).c_str(), e);
  else {
    // Maps are filled through their list of entries; normalize both.
    string s = serialize(*back);
    std::unique_ptr<Message> again(proto->New());
    if (!again->ParsePartialFromString(s) || serialize(*again) != serialize(*m))
      out::violation("decoded-content", "%s was decoded as %s",
                     m->ShortDebugString().substr(0, 600).c_str(),
                     back->ShortDebugString().substr(0, 600).c_str());
  }
  out::states.insert(out::hash(type + bytes));
}

int main(int argc, char **argv) {
  FileDescriptorSet set;
  std::ifstream in(argv[1], std::ios::binary);
  if (argc < 3 || !set.ParseFromIstream(&in)) return 2;
  rng.seed(strtoull(argv[2], 0, 10));
  for (auto &f : set.file())
    if (!pool.BuildFile(f)) return 3;
  for (auto *m = g_messages; m->name; m++) {
    descriptors[m->name] = m->descriptor;
    names[m->descriptor] = m->name;
  }
  for (auto *o = g_oneofs; o->name; o++) oneofs[o->name] = o->descriptor;
  for (auto *c = g_classes; c->name; c++) classes[c->name] = c;
  size_t total = 0;
  for (auto *x = g_accessors; x->message; x++) {
    std::pair<string, pb_tag_t> k(x->message, x->size ? x->tags[0] : 0);
    if (x->op == G_ENCODE) encoders[k] = x;
    else if (x->op == G_ENCODE_VALUE) value_encoders[k].push_back(x);
    else accessors[x->message].push_back(x), total++;
  }
  out::count("accessors", total);
  out::count("encoders", encoders.size());
  DynamicMessageFactory factory;
  for (auto &c : classes) {
    out::count(c.second->lite ? "lite-messages" : "messages");
    size_t n = accessors[c.first].size();
    int rounds = 4 + n / 15;
    if (rounds > 25) rounds = 25;
    if (rounds * n > 15000) rounds = 15000 / n;   // deeply nested types have thousands
    if (rounds < 3) rounds = 3;
    if (!c.second->lite)
      for (int i = 0; i < rounds; i++) accessor_round(c.first, factory);
    for (int i = 0; i < 4; i++) {
      encoder_round(c.first, factory);
      decoder_round(c.first, factory);
    }
  }
  out::finish();
  return 0;
}
