// Reference model of a protobuf message: a tree of wire elements with identity.
#ifndef MODEL_HH
#define MODEL_HH
#include "schema.hh"

namespace model {
using namespace sch;

struct Elem; struct Node;

struct PVal { Val v; Elem *parent = nullptr; bool dead = false; };

struct Node {
  int msg = 0;
  Elem *owner = nullptr;   // null: the root message
  bool dead = false;
  std::vector<std::unique_ptr<Elem>> el;   // wire order, tombstones included
};

struct Elem {
  enum Kind { SCALAR, STR, MSG, PACKED, UNKNOWN } kind = SCALAR;
  uint32_t tag = 0;
  const FieldDef *f = nullptr;
  Node *parent = nullptr;
  bool dead = false;
  Val v;                                      // SCALAR, STR
  std::unique_ptr<Node> node;                 // MSG
  std::vector<std::unique_ptr<PVal>> run;     // PACKED, tombstones included
  int wt = 0; std::string raw;                // UNKNOWN (payload incl. length)
  size_t live() const { size_t n = 0; for (auto &p : run) n += !p->dead; return n; }
  // Elements a cursor stops at.
  bool visible() const {
    return !dead && kind != UNKNOWN && (kind != PACKED || live());
  }
};

inline void encode(const Node &n, std::string &o);
inline std::string body(const Elem &e) {
  std::string b;
  switch (e.kind) {
    case Elem::SCALAR: b = payload(e.v); break;
    case Elem::STR: put_varint(b, e.v.s.size()); b += e.v.s; break;
    case Elem::MSG: {
      std::string s; encode(*e.node, s);
      put_varint(b, s.size()); b += s; break;
    }
    case Elem::PACKED: {
      std::string s;
      for (auto &p : e.run) if (!p->dead) s += payload(p->v);
      put_varint(b, s.size()); b += s; break;
    }
    case Elem::UNKNOWN: b = e.raw; break;
  }
  return b;
}
inline int wire(const Elem &e) {
  switch (e.kind) {
    case Elem::SCALAR: return wiretype(e.v.type);
    case Elem::UNKNOWN: return e.wt;
    default: return WT_LEN;
  }
}
inline void encode(const Elem &e, std::string &o) {
  put_varint(o, ((uint64_t)e.tag << 3) | (uint64_t)wire(e));
  o += body(e);
}
inline void encode(const Node &n, std::string &o) {
  for (auto &e : n.el) if (!e->dead) encode(*e, o);
}
inline std::string encode(const Node &n) { std::string o; encode(n, o); return o; }

struct GenParams {
  int max_depth = 4;
  bool unknown = true;       // unknown fields
  bool shuffle = true;       // sometimes out of tag order
  bool multi = true;         // several occurrences of singular fields
  bool multi_oneof = true;   // several members of a oneof
  bool mixed_packed = true;  // packed/unpacked irrespective of the declaration
  bool empty_runs = false;
  bool big = false;
  bool required_all = false; // always set required fields
  bool tower = false;        // go on along the tower up to max_depth
  int crowd = 60;            // 1-in-n messages hold very many values of one field
};

inline std::unique_ptr<Elem> scalar_elem(Node &n, const FieldDef &f, const Val &v) {
  auto e = std::make_unique<Elem>();
  e->kind = v.is_str() ? Elem::STR : Elem::SCALAR;
  e->tag = f.tag; e->f = &f; e->v = v; e->parent = &n;
  return e;
}

inline std::unique_ptr<Elem> unknown_elem(Rng &r, const Universe &u, Node &n) {
  auto e = std::make_unique<Elem>();
  const MsgDef &d = u.msgs[(size_t)n.msg];
  static const int W[] = {WT_VARINT, WT_64, WT_LEN, WT_32};
  e->kind = Elem::UNKNOWN; e->parent = &n;
  if (!d.fields.empty() && r.one_in(3)) {
    // A declared tag under a wire type its field doesn't have counts as unknown.
    const FieldDef &f = d.fields[r.below(d.fields.size())];
    e->tag = f.tag;
    do e->wt = W[r.below(4)]; while (e->wt == WT_LEN || e->wt == wiretype(f.type));
  } else {
    do e->tag = random_tag(r, r.one_in(3)) + (r.flip() ? 12 : 0) + (d.fields.size() > 60 ? (uint32_t)r.below(1000) : 0); while (d.find(e->tag) || e->tag > (1u << 29) - 1);
    e->wt = W[r.below(4)];
  }
  switch (e->wt) {
    case WT_VARINT: put_varint(e->raw, interesting_u64(r)); break;
    case WT_64: for (int i = 0; i < 8; i++) e->raw += (char)r.next(); break;
    case WT_32: for (int i = 0; i < 4; i++) e->raw += (char)r.next(); break;
    default: {
      std::string s = random_string(r);
      put_varint(e->raw, s.size()); e->raw += s;
    }
  }
  return e;
}

inline std::unique_ptr<Node> random_node(Rng &r, const Universe &u, int msg,
    const GenParams &g, int depth = 0, Elem *owner = nullptr) {
  static thread_local size_t budget;      // elements; many required submessages multiply
  if (!owner) budget = 20000;
  auto n = std::make_unique<Node>();
  n->msg = msg; n->owner = owner;
  const MsgDef &d = u.msgs[(size_t)msg];
  std::vector<int> chosen((size_t)d.oneofs, -1);
  for (int o = 0; o < d.oneofs; o++) {
    std::vector<uint32_t> tags;
    for (auto &f : d.fields) if (f.oneof == o) tags.push_back(f.tag);
    if (!tags.empty() && !r.one_in(4)) chosen[(size_t)o] = (int)tags[r.below(tags.size())];
  }
  bool sparse = r.one_in(5);
  const FieldDef *crowded = nullptr;
  if (g.crowd && depth < 2 && !d.fields.empty() && r.one_in((uint64_t)g.crowd)) crowded = &d.fields[r.below(d.fields.size())];
  for (auto &f : d.fields) {
    int count;
    if (f.label == PB_LABEL_REPEATED) count = r.one_in(3) ? 0 : (int)r.below(5);
    else if (f.oneof >= 0) {
      count = chosen[(size_t)f.oneof] == (int)f.tag;
      if (g.multi_oneof && r.one_in(8)) count = 1;
    } else {
      count = r.below(10) < (sparse ? 2 : 7);
      if (count && g.multi && r.one_in(8)) count = 2 + (int)r.below(2);
    }
    if (g.tower && f.type == PB_TYPE_MESSAGE) count = f.tower ? 1 : depth < 2 && r.one_in(4);
    if (g.required_all && f.label == PB_LABEL_REQUIRED && !count) count = 1;
    if (crowded == &f && (f.label == PB_LABEL_REPEATED || (f.oneof >= 0 ? g.multi_oneof : g.multi)))
      count = f.type == PB_TYPE_MESSAGE ? 10 + (int)r.below(20) : f.label != PB_LABEL_REPEATED ? 15 + (int)r.below(40) : 100 + (int)r.below(300);
    if (f.type == PB_TYPE_MESSAGE && depth >= g.max_depth && !(g.required_all && f.label == PB_LABEL_REQUIRED && depth < g.max_depth + 6)) count = 0;
    if (f.type == PB_TYPE_MESSAGE && !budget) count = 0;
    budget -= std::min(budget, (size_t)count);
    int made = 0;
    while (made < count || (g.empty_runs && f.packed && r.one_in(6))) {
      auto e = std::make_unique<Elem>();
      e->tag = f.tag; e->f = &f; e->parent = n.get();
      if (f.type == PB_TYPE_MESSAGE) {
        e->kind = Elem::MSG;
        e->node = random_node(r, u, f.nested, g, depth + 1, e.get());
        made++;
      } else if (wiretype(f.type) == WT_LEN) {
        e->kind = Elem::STR; e->v = field_val(r, u, f, g.big); made++;
      } else {
        bool pk = f.label == PB_LABEL_REPEATED && (g.mixed_packed && r.one_in(4) ? !f.packed : f.packed);
        if (pk) {
          e->kind = Elem::PACKED;
          int k = made >= count ? 0 : 1 + (int)r.below((uint64_t)(crowded == &f && r.flip() ? 400 : r.one_in(4) ? 40 : 4));
          for (int i = 0; i < k; i++) {
            e->run.push_back(std::make_unique<PVal>());
            e->run.back()->v = field_val(r, u, f); e->run.back()->parent = e.get();
          }
          made += k ? k : 0;
        } else { e->kind = Elem::SCALAR; e->v = field_val(r, u, f); made++; }
      }
      n->el.push_back(std::move(e));
    }
  }
  if (g.unknown)
    while (r.one_in(4)) {
      size_t at = r.below(n->el.size() + 1);
      n->el.insert(n->el.begin() + (long)at, unknown_elem(r, u, *n));
    }
  if (g.shuffle && r.one_in(4))
    for (size_t i = n->el.size(); i > 1; i--) std::swap(n->el[i - 1], n->el[r.below(i)]);
  return n;
}

// Messages nested far deeper than anything a test contains.
inline bool tower(Rng &r, Params &p, GenParams &g) {
  if (!p.submessages || p.messages < 2 || !r.one_in(10)) return false;
  p.tower = g.tower = true;
  p.messages = 1 + (int)r.below(4); p.max_fields = 2 + (int)r.below(3);
  g.max_depth = 5 + (int)r.below(r.one_in(4) ? 40 : 12); g.big = false; g.crowd = 0;
  mon::count("towers");
  return true;
}

// Index of the element before which a new element of `tag` goes; *match is the
// existing element a write addresses, if any. Documented rule: the last
// occurrence of the tag, else just after the last element with a smaller tag,
// else the beginning of the message.
struct Place { size_t at = 0; Elem *match = nullptr; size_t from = 0; };
inline Place place(const Node &n, uint32_t tag) {
  Place p; bool have = false;
  for (size_t i = 0; i < n.el.size(); i++) {
    Elem &e = *n.el[i];
    if (!e.visible()) continue;
    if (e.tag == tag) { p.at = i + 1; p.match = &e; p.from = i; have = true; }
    else if (e.tag < tag && !p.match) { p.at = i + 1; p.from = i; have = true; }
  }
  if (!have) { p.at = 0; p.from = 0; }
  return p;
}

inline const Elem *last_of(const Node &n, uint32_t tag) {
  const Elem *x = nullptr;
  for (auto &e : n.el) if (e->tag == tag && e->visible()) x = e.get();
  return x;
}
// The member of the oneof that counts: the last one on the wire.
inline const Elem *active(const Node &n, int oneof) {
  const Elem *x = nullptr;
  for (auto &e : n.el)
    if (e->visible() && e->f->oneof == oneof) x = e.get();
  return x;
}
// The element a read of a non-repeated field denotes, or null.
inline Elem *readable(const Node &n, const FieldDef &f) {
  const Elem *x = last_of(n, f.tag);
  if (x && f.oneof >= 0 && active(n, f.oneof) != x) x = nullptr;
  return const_cast<Elem *>(x);
}

inline void show(const Node &n, std::string &o, int depth = 0) {
  for (auto &e : n.el) {
    if (e->dead) continue;
    o += std::string((size_t)depth * 2 + 2, ' ') + std::to_string(e->tag) + ": ";
    switch (e->kind) {
      case Elem::SCALAR: case Elem::STR: o += e->v.show() + "\n"; break;
      case Elem::UNKNOWN: o += "unknown wt" + std::to_string(e->wt) + " " + mon::hex(e->raw.data(), e->raw.size(), 16) + "\n"; break;
      case Elem::PACKED:
        o += "packed [";
        for (auto &p : e->run) if (!p->dead) o += p->v.show() + " ";
        o += "]\n"; break;
      case Elem::MSG: o += "M" + std::to_string(e->node->msg) + " {\n"; show(*e->node, o, depth + 1);
        o += std::string((size_t)depth * 2 + 2, ' ') + "}\n"; break;
    }
  }
}
inline size_t depth_of(const Node &n) {
  size_t d = 0;
  for (auto &e : n.el) if (!e->dead && e->node) d = std::max(d, 1 + depth_of(*e->node));
  return d;
}

}  // namespace model
#endif
