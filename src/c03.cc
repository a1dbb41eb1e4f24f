// C03: the decoder delivers exactly the message's fields, in order, once each.
#include "guard.hh"
#include "model.hh"
using namespace model;
using mon::op; using mon::violate;

namespace {

struct Event {
  int depth; int msg; uint32_t tag; bool sub; Val v; size_t size;
  bool operator==(const Event &o) const {
    return depth == o.depth && msg == o.msg && tag == o.tag && sub == o.sub && (sub || v == o.v);
  }
  std::string show() const {
    return std::to_string(depth) + ":" + std::to_string(tag) + (sub ? "{}" : "=" + v.show());
  }
};
typedef std::vector<Event> Events;

std::string show(const Events &e) {
  std::string o;
  for (size_t i = 0; i < e.size() && i < 60; i++) o += e[i].show() + " ";
  return o;
}

// A varint with redundant continuation bytes, up to max bytes in all.
void put_padded(Rng &r, std::string &o, uint64_t v, size_t max, bool pad) {
  std::string s; put_varint(s, v);
  if (pad && r.one_in(4) && s.size() < max) {
    size_t n = s.size() + 1 + r.below(max - s.size());
    s.back() = (char)(s.back() | 0x80);
    while (s.size() + 1 < n) s += (char)0x80;
    s += (char)0;
  }
  o += s;
}

struct Emitter {
  Rng &r; bool pad;
  const Node *damage_node = nullptr; size_t damage_at = 0; std::string damage;
  Events ev;
  bool hit = false;            // the damage has been emitted: no more events
  std::vector<size_t> ends;    // of top-level elements
  std::vector<size_t> counts;  // number of events up to there

  void tag(std::string &o, uint32_t t, int wt) {
    put_padded(r, o, ((uint64_t)t << 3) | (uint64_t)wt, 5, pad);
  }
  void event(int depth, int msg, uint32_t tag, bool sub, const Val &v) {
    if (!hit) ev.push_back({depth, msg, tag, sub, v, 0});
  }
  std::string scalar(const Val &v) {
    if (wiretype(v.type) != WT_VARINT) return payload(v);
    std::string p = payload(v), o; uint64_t x;
    get_varint((const uint8_t *)p.data(), p.size(), &x);
    put_padded(r, o, x, v.type == PB_TYPE_BOOL ? 2 : native_size(v.type) == 4 ? 5 : 10, pad);
    return o;
  }
  void node(const Node &n, std::string &o, int depth) {
    for (size_t i = 0; i <= n.el.size(); i++) {
      if (&n == damage_node && i == damage_at) { o += damage; hit = true; }
      if (i == n.el.size()) break;
      Elem &e = *n.el[i];
      tag(o, e.tag, wire(e));
      switch (e.kind) {
        case Elem::SCALAR: o += scalar(e.v); event(depth, n.msg, e.tag, false, e.v); break;
        case Elem::STR:
          put_padded(r, o, e.v.s.size(), 5, pad); o += e.v.s;
          event(depth, n.msg, e.tag, false, e.v); break;
        case Elem::PACKED: {
          std::string s;
          for (auto &p : e.run) { s += scalar(p->v); event(depth, n.msg, e.tag, false, p->v); }
          put_padded(r, o, s.size(), 5, pad); o += s; break;
        }
        case Elem::MSG: {
          std::string s;
          event(depth, n.msg, e.tag, true, Val());
          node(*e.node, s, depth + 1);
          put_padded(r, o, s.size(), 5, pad); o += s; break;
        }
        case Elem::UNKNOWN:
          if (e.wt == WT_VARINT) {
            uint64_t x; get_varint((const uint8_t *)e.raw.data(), e.raw.size(), &x);
            put_padded(r, o, x, 10, pad);
          } else if (e.wt == WT_LEN) {
            uint64_t x; size_t k = get_varint((const uint8_t *)e.raw.data(), e.raw.size(), &x);
            put_padded(r, o, x, 5, pad); o += e.raw.substr(k);
          } else o += e.raw;
      }
      if (depth == 0) { ends.push_back(o.size()); counts.push_back(ev.size()); }
    }
  }
};

struct Sink {
  Universe *u; const Guarded *mem; Events ev; int depth = 0; int msg = 0;
  long stop_at = -1; pb_error_t stop_with = PB_ERROR_NONE; bool stopped = false;
  bool descend = true; bool again = false;
  std::vector<pb_error_t> sub_errors;
};

pb_error_t on_value(const pb_field_descriptor_t *d, const void *v, void *user) {
  Sink &s = *(Sink *)user;
  if (s.stopped) violate("called-after-error", "handler called after it returned an error: field %u", d->tag);
  const FieldDef *f = s.u->msgs[(size_t)s.msg].find(pb_field_descriptor_tag(d));
  if (!f || f->type != pb_field_descriptor_type(d) || f->label != pb_field_descriptor_label(d) ||
      f->name != pb_field_descriptor_name(d))
    violate("wrong-descriptor", "handler got a descriptor that is not the one of field %u", d->tag);
  Event e{s.depth, s.msg, f->tag, f->type == PB_TYPE_MESSAGE, Val(), 0};
  if (!e.sub) {
    if (wiretype(f->type) == WT_LEN) {
      const pb_string_t *str = (const pb_string_t *)v;
      if (pb_string_size(str) && !s.mem->inside(pb_string_data(str), pb_string_size(str)))
        violate("string-outside", "field %u: string of %zu bytes is not inside the buffer", f->tag, pb_string_size(str));
    }
    e.v = from_native(f->type, v);
  }
  s.ev.push_back(e);
  mon::count("handler-calls");
  if (s.stop_at >= 0 && (long)s.ev.size() - 1 == s.stop_at) { s.stopped = true; return s.stop_with; }
  if (!e.sub || !s.descend) return PB_ERROR_NONE;
  const pb_decoder_t *sub = (const pb_decoder_t *)v;
  if (!pb_decoder_valid(sub)) violate("invalid-subdecoder", "field %u", f->tag);
  if (pb_decoder_descriptor(sub) != s.u->desc[(size_t)f->nested])
    violate("wrong-subdescriptor", "field %u", f->tag);
  int om = s.msg; size_t mark = s.ev.size();
  s.depth++; s.msg = f->nested;
  pb_error_t err = pb_decoder_decode(sub, on_value, &s);
  if (!err && s.again) {   // decoding is repeatable
    Events first(s.ev.begin() + (long)mark, s.ev.end());
    s.ev.resize(mark);
    err = pb_decoder_decode(sub, on_value, &s);
    if (err || !(Events(s.ev.begin() + (long)mark, s.ev.end()) == first))
      violate("not-repeatable", "decoding field %u twice differs (error %d)", f->tag, err);
  }
  s.depth--; s.msg = om;
  return err;
}

pb_error_t decode(Universe &u, const Guarded &mem, Sink &s) {
  s.u = &u; s.mem = &mem;
  pb_buffer_t b = mem.size ? pb_buffer_create_zero_copy(mem.data, mem.size) : pb_buffer_create_empty();
  pb_decoder_t d = pb_decoder_create(u.desc[0], &b);
  pb_error_t e = pb_decoder_decode(&d, on_value, &s);
  mon::count("decodes");
  pb_decoder_destroy(&d); pb_buffer_destroy(&b);
  return e;
}

void compare(const char *key, const Events &got, const Events &want, const std::string &bytes) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    if (i < got.size() && i < want.size() && got[i] == want[i]) continue;
    violate(key, "event %zu of %zu/%zu: got %s, expected %s\nbytes %s\n got %s\nwant %s", i, got.size(), want.size(),
      i < got.size() ? got[i].show().c_str() : "(none)", i < want.size() ? want[i].show().c_str() : "(none)",
      mon::hex(bytes).c_str(), show(got).c_str(), show(want).c_str());
  }
}
bool prefix(const Events &a, const Events &b) {
  return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}

Params params(Rng &r) {
  Params p; p.messages = 1 + (int)r.below(5); p.max_fields = 3 + (int)r.below(10);
  return p;
}
GenParams gen(Rng &r) {
  GenParams g; g.max_depth = (int)r.below(5); g.empty_runs = r.flip();
  g.big = r.one_in(40);
  return g;
}

void all_nodes(Node &n, std::vector<Node *> &v) {
  v.push_back(&n);
  for (auto &e : n.el) if (e->node) all_nodes(*e->node, v);
}

void wellformed(Rng &r, uint64_t id) {
  Universe u; random_universe(r, u, params(r));
  auto n = random_node(r, u, 0, gen(r));
  Emitter em{r, r.one_in(3)};
  std::string b; em.node(*n, b, 0);
  op("schema %s\nbytes %s", u.show().c_str(), mon::hex(b).c_str());
  Guarded mem(b);
  { Sink s; s.again = r.one_in(4);
    pb_error_t e = decode(u, mem, s);
    if (e) violate("well-formed-error", "decoding a well-formed message fails with %d\nbytes %s", e, mon::hex(b).c_str());
    compare("well-formed-events", s.ev, em.ev, b);
    mon::distinct(mon::fnv(b));
    mon::count("events", em.ev.size()); }
  if (r.one_in(4)) {   // handlers that do not descend
    Sink s; s.descend = false;
    Events top; for (auto &e : em.ev) if (!e.depth) top.push_back(e);
    pb_error_t e = decode(u, mem, s);
    if (e) violate("shallow-error", "error %d", e);
    compare("shallow-events", s.ev, top, b);
  }
  // stop at every (at most 40) event with every kind of error
  for (size_t i = 0; i < em.ev.size() && i < 40; i++) {
    size_t at = em.ev.size() <= 40 ? i : r.below(em.ev.size());
    Sink s; s.stop_at = (long)at; s.stop_with = (pb_error_t)(1 + r.below(PB_ERROR_EOM));
    op("stop at event %zu with %d", at, s.stop_with);
    pb_error_t e = decode(u, mem, s);
    if (e != s.stop_with) violate("stop-error", "handler error %d at event %zu is returned as %d", s.stop_with, at, e);
    compare("stop-events", s.ev, Events(em.ev.begin(), em.ev.begin() + (long)at + 1), b);
    mon::count("handler-stops");
  }
  if (mem.str() != b) violate("modified", "decoding modified the buffer");
  if (id < 2) mon::sample(u.show() + " <- " + mon::hex(b));
}

void truncated(Rng &r, uint64_t) {
  Universe u; random_universe(r, u, params(r));
  GenParams g = gen(r); g.big = false; g.max_depth = (int)r.below(3);
  auto n = random_node(r, u, 0, g);
  Emitter em{r, r.one_in(3)};
  std::string b; em.node(*n, b, 0);
  op("schema %s\nbytes %s", u.show().c_str(), mon::hex(b).c_str());
  size_t start = b.size() > 400 ? r.below(b.size() - 400) : 0;
  size_t el = 0;
  for (size_t k = start; k < b.size() && k < start + 400; k++) {
    while (el < em.ends.size() && em.ends[el] <= k) el++;
    bool boundary = k == 0 || (el && em.ends[el - 1] == k);
    size_t need = el ? em.counts[el - 1] : 0, may = need;
    if (el < em.counts.size() && n->el[el]->kind == Elem::PACKED) may = em.counts[el];
    Guarded mem(b.substr(0, k));
    Sink s;
    pb_error_t e = decode(u, mem, s);
    mon::count("truncations");
    mon::distinct(mon::fnv(b.data(), k));
    if (boundary ? e != PB_ERROR_NONE : e == PB_ERROR_NONE)
      violate(boundary ? "boundary-error" : "truncation-accepted", "%zu of %zu bytes: error %d\nbytes %s", k, b.size(), e,
        mon::hex(mem.str()).c_str());
    if (!prefix(s.ev, em.ev) || s.ev.size() < need || s.ev.size() > may || (boundary && s.ev.size() != need))
      violate("truncation-events", "%zu of %zu bytes: %zu events, expected %zu..%zu of\n%s\n got %s\nbytes %s", k, b.size(),
        s.ev.size(), need, may, show(em.ev).c_str(), show(s.ev).c_str(), mon::hex(mem.str()).c_str());
  }
}

// Damage in the middle of a message at any level: nothing follows it.
void damaged(Rng &r, uint64_t) {
  Universe u; random_universe(r, u, params(r));
  GenParams g = gen(r); g.big = false;
  auto n = random_node(r, u, 0, g);
  std::vector<Node *> nodes; all_nodes(*n, nodes);
  for (int rep = 0; rep < 12; rep++) {
    Emitter em{r, r.one_in(4)};
    Node *at = nodes[r.below(nodes.size())];
    const MsgDef &d = u.msgs[(size_t)at->msg];
    em.damage_node = at; em.damage_at = r.below(at->el.size() + 1);
    uint32_t tag; do tag = 1 + (uint32_t)r.below(r.flip() ? 60 : 100000); while (d.find(tag));
    const FieldDef *f = d.fields.empty() ? nullptr : &d.fields[r.below(d.fields.size())];
    std::string &x = em.damage;
    const char *kind = "";
    bool tail = false;   // only illegal at the end of the enclosing message
    switch (r.below(9)) {
      case 0: { static const int W[] = {3, 4, 6, 7};
        put_varint(x, ((uint64_t)tag << 3) | (uint64_t)W[r.below(4)]); kind = "illegal wire type"; break; }
      case 1:
        put_varint(x, (uint64_t)tag << 3); x += std::string(10 + r.below(3), (char)(0x80 | r.below(128))); x += '\1';
        kind = "overlong unknown varint"; break;
      case 2:
        put_varint(x, ((uint64_t)tag << 3) | 2); put_varint(x, 0x7fffffffu - r.below(1000)); kind = "unknown length past end"; break;
      case 3:
        put_varint(x, ((uint64_t)tag << 3) | 2); put_varint(x, 0xffffffffu - r.below(30)); kind = "huge unknown length"; break;
      case 4: {
        static const int W[] = {WT_VARINT, WT_64, WT_LEN, WT_32};
        int w = W[r.below(4)];
        put_varint(x, ((uint64_t)tag << 3) | (uint64_t)w);
        if (w == WT_VARINT) x += std::string(r.below(9), (char)0xff);
        else if (w == WT_64) x += std::string(r.below(8), 'x');
        else if (w == WT_32) x += std::string(r.below(4), 'x');
        else { size_t k = r.below(20); put_varint(x, k + 1); x += std::string(k, 'y'); }
        tail = true; kind = "truncated unknown field"; break; }
      case 5: x = std::string(1 + r.below(4), (char)(0x80 | (r.next() & 0x7f))); tail = true; kind = "truncated tag"; break;
      case 6: if (r.flip()) { x = std::string(1, (char)r.below(8)); kind = "tag zero"; }
        else { x = std::string(10 + r.below(3), (char)0xff); kind = "overlong tag"; }
        break;
      default: {
        if (!f) { x = std::string(11, (char)0xff); kind = "overlong tag"; break; }
        int w = wiretype(f->type);
        put_varint(x, ((uint64_t)f->tag << 3) | (uint64_t)w);
        kind = "damaged known field";
        if (w == WT_VARINT && r.flip()) { x += std::string(10 + r.below(3), (char)0xff); x += '\1'; break; }
        if (w == WT_LEN && r.flip()) { put_varint(x, 0xffffffffu - r.below(1000000)); break; }
        tail = true;
        if (w == WT_VARINT) x += std::string(r.below(9), (char)0x80);
        else if (w == WT_64) x += std::string(r.below(8), 'x');
        else if (w == WT_32) x += std::string(r.below(4), 'x');
        else { size_t k = r.below(20); put_varint(x, k + 1); x += std::string(k, 'y'); }
      }
    }
    if (tail) em.damage_at = at->el.size();
    std::string b; em.node(*n, b, 0);
    op("schema %s\n%s at depth-node %d: %s\nbytes %s", rep ? "(same)" : u.show().c_str(), kind, at->msg, mon::hex(x).c_str(), mon::hex(b).c_str());
    Guarded mem(b);
    Sink s;
    pb_error_t e = decode(u, mem, s);
    mon::count("damaged");
    mon::count((std::string("damage:") + kind).c_str());
    mon::distinct(mon::fnv(b));
    if (!e) violate("damage-accepted", "%s in M%d: decoding succeeds\nbytes %s", kind, at->msg, mon::hex(b).c_str());
    compare("damage-events", s.ev, em.ev, b);
  }
}

// Values of a packed run that cross its end, or that are damaged themselves.
void packed_damage(Rng &r, uint64_t) {
  static const pb_type_t T[] = {PB_TYPE_INT32, PB_TYPE_UINT64, PB_TYPE_SINT64, PB_TYPE_FIXED32, PB_TYPE_DOUBLE, PB_TYPE_BOOL, PB_TYPE_UINT32};
  Universe u; u.msgs.resize(1);
  FieldDef f; f.tag = 1 + (uint32_t)r.below(40); f.type = r.pick(T); f.label = PB_LABEL_REPEATED; f.packed = r.flip(); f.name = "f";
  u.msgs[0].fields.push_back(f);
  u.build();
  int k = 1 + (int)r.below(6);
  std::string run; Events ev; std::vector<size_t> ends{0};
  for (int i = 0; i < k; i++) {
    Val v = random_val(r, f.type);
    run += payload(v); ends.push_back(run.size());
    ev.push_back({0, 0, f.tag, false, v, 0});
  }
  std::string head; put_varint(head, ((uint64_t)f.tag << 3) | 2);
  std::string follow = r.flip() ? std::string(r.below(12), '\0') : random_string(r);
  for (size_t len = 0; len <= run.size(); len++) {
    std::string b = head; put_varint(b, len); b += run.substr(0, len);
    if (len < run.size()) b += run.substr(len) + follow;
    Guarded mem(b);
    Sink s;
    op("packed %s length %zu of %zu: %s", type_name(f.type), len, run.size(), mon::hex(b).c_str());
    pb_error_t e = decode(u, mem, s);
    size_t whole = 0; bool exact = false;
    for (size_t i = 0; i < ends.size(); i++) if (ends[i] <= len) { whole = i; exact = ends[i] == len; }
    mon::count("packed-cuts");
    mon::distinct(mon::fnv(b));
    if (!exact) {
      if (!e) violate("packed-cut-accepted", "a value crossing the end of its packed run is accepted");
      compare("packed-cut-events", s.ev, Events(ev.begin(), ev.begin() + (long)whole), b);
    } else {
      Events want(ev.begin(), ev.begin() + (long)whole);
      if (s.ev.size() < want.size() || !prefix(want, s.ev)) compare("packed-events", s.ev, want, b);
      if (len == run.size() && e) violate("packed-error", "error %d", e);
    }
  }
}

// Messages with very many fields, long runs, deep nesting.
void large(Rng &r, uint64_t id) {
  Universe u; u.msgs.resize(1);
  auto &fs = u.msgs[0].fields;
  FieldDef f;
  f.name = "f1"; f.tag = 1; f.type = PB_TYPE_UINT32; f.label = PB_LABEL_REPEATED; fs.push_back(f);
  f.name = "f2"; f.tag = 2; f.type = PB_TYPE_STRING; fs.push_back(f);
  f.name = "f3"; f.tag = 3; f.type = PB_TYPE_MESSAGE; f.nested = 0; fs.push_back(f);
  f.name = "f4"; f.tag = 4; f.nested = -1; f.type = PB_TYPE_SINT64; f.packed = true; fs.push_back(f);
  u.build();
  Node n;
  GenParams g; g.unknown = false;
  size_t k = 20000 + r.below(mon::opts().thorough ? 2000000 : 200000);
  if (id % 2) {
    Node *at = &n;
    int depth = 100 + (int)r.below(400);
    for (int i = 0; i < depth; i++) {
      auto e = std::make_unique<Elem>();
      e->kind = Elem::MSG; e->tag = 3; e->f = &fs[2]; e->node = std::make_unique<Node>();
      Node *next = e->node.get();
      if (r.one_in(3)) { Val v; v.type = PB_TYPE_UINT32; v.u = r.below(1000); at->el.push_back(scalar_elem(*at, fs[0], v)); }
      at->el.push_back(std::move(e));
      at = next;
    }
  } else {
    auto run = std::make_unique<Elem>();
    run->kind = Elem::PACKED; run->tag = 4; run->f = &fs[3];
    for (size_t i = 0; i < k; i++) {
      Val v;
      if (r.one_in(3)) { v.type = PB_TYPE_STRING; v.s = std::string(r.below(5), 's'); n.el.push_back(scalar_elem(n, fs[1], v)); }
      else { v.type = PB_TYPE_UINT32; v.u = (uint32_t)r.next() >> r.below(32); n.el.push_back(scalar_elem(n, fs[0], v)); }
      run->run.push_back(std::make_unique<PVal>());
      run->run.back()->v = random_val(r, PB_TYPE_SINT64);
    }
    if (id % 4 == 2) {      // a run whose length is a power of two
      run->run.clear();
      for (size_t i = (size_t)1 << (14 + r.below(5)); i > 0; i--) {
        run->run.push_back(std::make_unique<PVal>());
        Val v; v.type = PB_TYPE_SINT64; v.u = r.below(64); run->run.back()->v = v;
      }
    }
    n.el.push_back(std::move(run));
  }
  Emitter em{r, false};
  std::string b; em.node(n, b, 0);
  Guarded mem(b);
  Sink s;
  op("large message, %zu bytes, %zu events", b.size(), em.ev.size());
  pb_error_t e = decode(u, mem, s);
  if (e) violate("large-error", "error %d", e);
  compare("large-events", s.ev, em.ev, "(large)");
  mon::count("large-messages"); mon::distinct(mon::fnv(b));
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"wellformed", wellformed, 12000, 800000},
    {"truncated", truncated, 2500, 150000},
    {"damaged", damaged, 6000, 400000},
    {"packed-damage", packed_damage, 6000, 300000},
    {"large", large, 24, 300},
  });
}
