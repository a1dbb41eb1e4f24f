// C04: encoder output is the canonical wire form and other implementations agree.
#include "alloc.hh"
#include "pbref.hh"
using namespace model;
using mon::op; using mon::violate;

namespace {

struct Enc { pb_encoder_t e; std::string want; std::unique_ptr<Node> node; };

struct Driver {
  Rng &r; Universe &u; Ledger &led; bool faults;
  int budget = 60;

  std::string bytes(pb_encoder_t *e) {
    const pb_buffer_t *b = pb_encoder_buffer(e);
    return std::string((const char *)pb_buffer_data(b), pb_buffer_size(b));
  }
  void check(Enc &x, const char *what) {
    std::string got = bytes(&x.e);
    mon::distinct(mon::fnv(got, (uint64_t)x.node->msg));
    mon::count("buffer-comparisons");
    if (!pb_encoder_valid(&x.e)) violate("encoder-invalid", "the encoder is invalid after %s", what);
    if (got != x.want)
      violate((std::string("bytes:") + what).c_str(), "after %s\n got %s\nwant %s", what, mon::hex(got).c_str(), mon::hex(x.want).c_str());
  }
  // Encode `n` prepared values; all outcomes are judged here.
  void call(Enc &x, uint32_t tag, const void *vals, size_t n, const std::string &add, bool reject, const char *what) {
    uint64_t before = led.requests;
    if (faults && r.one_in(5)) {
      // deny one of the allocation requests of this call (or of those to come)
      led.arm(1 + r.below(4), r.flip());
      pb_error_t e = pb_encoder_encode(&x.e, tag, vals, n);
      bool hit = led.denied > 0; led.denied = 0; led.disarm();
      mon::count("fault-calls");
      op("M%d.encode(%u, %zu values) with denied allocation: %d (hit=%d)", x.node->msg, tag, n, e, hit);
      if (hit && !e) violate("fault-hidden", "%s: an allocation was denied, yet encoding reports success", what);
      if (hit || reject) {
        if (reject && !e) violate("reject-accepted", "%s is accepted", what);
        check(x, "denied allocation");
        // fall through: once memory is available again everything works
      } else {
        if (e) violate("encode-error", "%s: error %d", what, e);
        x.want += add; check(x, what);
        return;
      }
    }
    pb_error_t e = pb_encoder_encode(&x.e, tag, vals, n);
    op("M%d.encode(%u, %zu values: %s): %d", x.node->msg, tag, n, what, e);
    (void)before;
    if (reject) {
      mon::count("rejected-calls"); mon::count((std::string("rejected:") + what).c_str());
      if (!e) violate("reject-accepted", "%s is accepted", what);
      check(x, what);
    } else {
      if (e) violate("encode-error", "%s: error %d", what, e);
      mon::count("calls");
      x.want += add; check(x, what);
    }
  }
  std::string tagb(uint32_t t, int wt) { std::string o; put_varint(o, ((uint64_t)t << 3) | (uint64_t)wt); return o; }

  void scalars(Enc &x, const FieldDef &f, bool toomany) {
    size_t n = toomany ? 2 + r.below(3) : f.label == PB_LABEL_REPEATED ? 1 + r.below(r.one_in(6) ? 60 : 5) : 1;
    std::vector<Val> vals; std::vector<uint8_t> nat; std::string add, run;
    bool packed = f.packed && n > 1;
    std::unique_ptr<Elem> pe;
    std::vector<std::unique_ptr<Elem>> es;
    vals.reserve(n);
    for (size_t i = 0; i < n; i++) {
      vals.push_back(field_val(r, u, f, r.one_in(20)));
      Native nv; to_native(vals.back(), nv);
      nat.insert(nat.end(), nv.b, nv.b + native_size(f.type));
      if (packed) run += payload(vals.back());
      else {
        auto e = scalar_elem(*x.node, f, vals.back());
        encode(*e, add);
        es.push_back(std::move(e));
      }
    }
    // exact-size copy: reads past the last value are noticed
    std::unique_ptr<uint8_t[]> ex(new uint8_t[nat.size()]);
    memcpy(ex.get(), nat.data(), nat.size());
    if (packed) {
      pe = std::make_unique<Elem>();
      pe->kind = Elem::PACKED; pe->tag = f.tag; pe->f = &f; pe->parent = x.node.get();
      for (auto &v : vals) { pe->run.push_back(std::make_unique<PVal>()); pe->run.back()->v = v; pe->run.back()->parent = pe.get(); }
      encode(*pe, add);
      mon::count("packed-calls");
    }
    call(x, f.tag, ex.get(), n, add, toomany, toomany ? "several values for a non-repeated field" : packed ? "packed values" : "values");
    if (toomany) return;
    if (packed) x.node->el.push_back(std::move(pe));
    for (auto &e : es) x.node->el.push_back(std::move(e));
  }
  void subs(Enc &x, const FieldDef &f, int depth, bool toomany) {
    size_t n = toomany ? 2 : f.label == PB_LABEL_REPEATED ? 1 + r.below(3) : 1;
    std::vector<Enc> es;
    for (size_t i = 0; i < n; i++) es.push_back(build(f.nested, depth + 1));
    std::vector<pb_encoder_t> arr;
    for (auto &e : es) arr.push_back(e.e);
    bool invalid = !toomany && r.one_in(8);
    if (invalid) pb_encoder_destroy(&arr[r.below(n)]);
    std::string add;
    std::vector<std::unique_ptr<Elem>> els;
    for (auto &e : es) {
      auto el = std::make_unique<Elem>();
      el->kind = Elem::MSG; el->tag = f.tag; el->f = &f; el->parent = x.node.get();
      el->node = std::move(e.node); el->node->owner = el.get();
      encode(*el, add);
      els.push_back(std::move(el));
    }
    call(x, f.tag, arr.data(), n, add, toomany || invalid, toomany ? "several values for a non-repeated field" :
      invalid ? "invalid nested encoder" : "nested encoders");
    mon::count("nested-calls");
    for (size_t i = 0; i < n; i++) {
      // nested encoders are not consumed
      if (pb_encoder_valid(&arr[i]) && bytes(&arr[i]) != es[i].want) violate("nested-modified", "encoding a nested encoder modified it");
      pb_encoder_destroy(&arr[i]);
    }
    if (!toomany && !invalid) for (auto &e : els) x.node->el.push_back(std::move(e));
  }
  Enc build(int msg, int depth) {
    Enc x;
    x.e = pb_encoder_create_with_allocator(&led.a, u.desc[(size_t)msg]);
    x.node = std::make_unique<Node>(); x.node->msg = msg;
    if (!pb_encoder_valid(&x.e)) violate("create", "a new encoder is invalid");
    const MsgDef &d = u.msgs[(size_t)msg];
    int calls = depth == 0 ? 1 + (int)r.below(20) : (int)r.below(6);
    while (calls-- > 0 && budget-- > 0) {
      if (r.one_in(10) || d.fields.empty()) {
        uint32_t tag; do tag = 1 + (uint32_t)r.below(r.flip() ? 60 : (1u << 29) - 1); while (d.find(tag));
        uint64_t v[8] = {};
        call(x, tag, v, 1 + r.below(3), "", true, "undeclared field");
        continue;
      }
      const FieldDef &f = d.fields[r.below(d.fields.size())];
      bool toomany = f.label != PB_LABEL_REPEATED && r.one_in(10);
      if (f.type == PB_TYPE_MESSAGE) { if (depth < 4) subs(x, f, depth, toomany); }
      else scalars(x, f, toomany);
    }
    return x;
  }
};

pb_error_t count_values(const pb_field_descriptor_t *f, const void *v, void *user) {
  std::vector<std::string> *o = (std::vector<std::string> *)user;
  if (pb_field_descriptor_type(f) == PB_TYPE_MESSAGE) {
    o->push_back(std::to_string(f->tag) + "{");
    pb_error_t e = pb_decoder_decode((const pb_decoder_t *)v, count_values, user);
    o->push_back("}");
    return e;
  }
  o->push_back(std::to_string(f->tag) + "=" + from_native(f->type, v).show());
  return PB_ERROR_NONE;
}
void events(const Node &n, std::vector<std::string> &o) {
  for (auto &e : n.el) switch (e->kind) {
    case Elem::MSG: o.push_back(std::to_string(e->tag) + "{"); events(*e->node, o); o.push_back("}"); break;
    case Elem::PACKED: for (auto &p : e->run) o.push_back(std::to_string(e->tag) + "=" + p->v.show()); break;
    default: o.push_back(std::to_string(e->tag) + "=" + e->v.show());
  }
}

void play(Rng &r, uint64_t id, bool faults) {
  Params p; p.messages = 1 + (int)r.below(5); p.max_fields = 3 + (int)r.below(8);
  Universe u; random_universe(r, u, p);
  op("schema %s", u.show().c_str());
  Ledger led;
  {
    Driver d{r, u, led, faults};
    d.budget = 20 + (int)r.below(60);
    Enc x = d.build(0, 0);
    std::string got = d.bytes(&x.e);
    if (got != encode(*x.node)) mon::harness_bug("model and expectation differ");
    // this library understands it
    std::vector<std::string> ev, want;
    pb_decoder_t dec = pb_decoder_create(u.desc[0], pb_encoder_buffer(&x.e));
    pb_error_t e = pb_decoder_decode(&dec, count_values, &ev);
    events(*x.node, want);
    if (e || ev != want) violate("decode-back", "decoding the output: error %d, %zu values, expected %zu", e, ev.size(), want.size());
    pb_decoder_destroy(&dec);
    // an independent implementation agrees
    if (r.one_in(4)) { pbref::Schema ref(u); ref.check(*x.node, got); }
    if (id < 2) mon::sample(u.show() + " -> " + mon::hex(got));
    pb_encoder_destroy(&x.e);
    if (pb_encoder_valid(&x.e)) violate("destroyed-valid", "a destroyed encoder is valid");
  }
  led.expect_empty("after destroying all encoders");
}
void plain(Rng &r, uint64_t id) { play(r, id, false); }
void faulty(Rng &r, uint64_t id) { play(r, id, true); }

// Length prefixes of strings, submessages and packed runs around the limits.
void lengths(Rng &r, uint64_t id) {
  Universe u; u.msgs.resize(2);
  static const pb_type_t T[] = {PB_TYPE_UINT32, PB_TYPE_SINT64, PB_TYPE_FIXED32, PB_TYPE_DOUBLE, PB_TYPE_BOOL, PB_TYPE_INT32};
  FieldDef f;
  f.tag = 1; f.name = "f1"; f.type = PB_TYPE_BYTES; u.msgs[0].fields.push_back(f); u.msgs[1].fields.push_back(f);
  f.tag = 2; f.name = "f2"; f.type = PB_TYPE_MESSAGE; f.nested = 1; u.msgs[0].fields.push_back(f); f.nested = -1;
  f.tag = 3; f.name = "f3"; f.type = r.pick(T); f.label = PB_LABEL_REPEATED; f.packed = true; u.msgs[0].fields.push_back(f);
  u.build();
  static const size_t L[] = {0, 127, 128, 16383, 16384, 2097151, 2097152};
  size_t base = L[id % 25 == 0 ? 5 + id / 25 % 2 : id % 5];
  if (base > 1000000) mon::count("lengths-of-2MiB");
  size_t len = base + r.below(5); len = len >= 2 ? len - 2 : len;
  Ledger led;
  { Driver d{r, u, led, false};
    pb_encoder_t top = pb_encoder_create_with_allocator(&led.a, u.desc[0]);
    pb_encoder_t sub = pb_encoder_create_with_allocator(&led.a, u.desc[1]);
    std::string want, swant;
    Val s; s.type = PB_TYPE_BYTES; s.s = std::string(len, (char)r.next());
    Native n; to_native(s, n);
    auto lenfield = [](uint32_t tag, const std::string &b) { std::string o; put_varint(o, (tag << 3) | 2); put_varint(o, b.size()); return o + b; };
    pb_error_t e = pb_encoder_encode(&sub, 1, n.b, 1);
    swant = lenfield(1, s.s);
    if (e || d.bytes(&sub) != swant) violate("string-length", "string of %zu bytes: error %d", len, e);
    e = pb_encoder_encode(&top, 2, &sub, 1);
    want = lenfield(2, swant);
    if (e || d.bytes(&top) != want) violate("message-length", "submessage of %zu bytes: error %d", swant.size(), e);
    std::string run; std::vector<uint8_t> nat;
    size_t k = 0;
    while (run.size() + 10 < len || k < 2) {
      Val v = random_val(r, f.type); Native x; to_native(v, x);
      run += payload(v); nat.insert(nat.end(), x.b, x.b + native_size(f.type)); k++;
    }
    e = pb_encoder_encode(&top, 3, nat.data(), k);
    want += lenfield(3, run);
    if (e || d.bytes(&top) != want) violate("packed-length", "packed run of %zu bytes: error %d", run.size(), e);
    mon::count("length-cases"); mon::distinct(mon::fnv(want));
    pb_encoder_destroy(&sub); pb_encoder_destroy(&top); }
  led.expect_empty("lengths");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"plain", plain, 20000, 1200000},
    {"faulty", faulty, 12000, 700000},
    {"lengths", lengths, 1500, 40000},
  });
}
