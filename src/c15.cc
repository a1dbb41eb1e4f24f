// C15: the validator's verdict against an independent evaluator.
#include "model.hh"
#include "guard.hh"
using namespace model;
using mon::op; using mon::violate;

namespace {

// Verdict on a tree of well-formed elements.
bool complete(const Universe &u, const Node &n, size_t upto = (size_t)-1) {
  const MsgDef &d = u.msgs[(size_t)n.msg];
  std::set<uint32_t> seen;
  size_t k = 0;
  for (auto &e : n.el) {
    if (e->dead) continue;
    if (k++ == upto) break;
    if (e->kind == Elem::UNKNOWN) continue;
    if (e->kind == Elem::PACKED && !e->live()) continue;
    seen.insert(e->tag);
    if (e->kind == Elem::MSG && !complete(u, *e->node)) return false;
  }
  for (auto &f : d.fields) if (f.label == PB_LABEL_REQUIRED && !seen.count(f.tag)) return false;
  return true;
}
std::vector<Node *> nodes(Node &n) {
  std::vector<Node *> v = {&n};
  for (auto &e : n.el) if (!e->dead && e->node) for (Node *x : nodes(*e->node)) v.push_back(x);
  return v;
}

// ABSENT, NONE, or any other error (-1).
void check(const Universe &u, int msg, const std::string &b, int want, const char *what) {
  Guarded g(b);
  pb_buffer_t x = b.empty() ? pb_buffer_create_empty() : pb_buffer_create_zero_copy(g.data, g.size);
  pb_validator_t v = pb_validator_create(u.desc[(size_t)msg]);
  if (pb_validator_descriptor(&v) != u.desc[(size_t)msg]) violate("descriptor", "validator has another descriptor");
  pb_error_t e = pb_validator_check(&v, &x);
  bool ok = want == -1 ? e != PB_ERROR_NONE : e == (pb_error_t)want;
  if (!ok) violate((std::string("verdict:") + what).c_str(), "%s: verdict %d, expected %s, for %s", what, e,
    want == -1 ? "an error" : want ? "absent" : "success", mon::hex(b).c_str());
  if (g.str() != b) violate("modified", "validation changed the message");
  pb_error_t again = pb_validator_check(&v, &x);
  if (again != e) violate("unstable", "second verdict %d, first %d", again, e);
  pb_validator_destroy(&v);
  pb_buffer_destroy(&x);
  mon::count("verdicts");
  mon::count(want == 0 ? "accepted" : want == PB_ERROR_ABSENT ? "incomplete" : "malformed");
  mon::distinct(mon::fnv(b, (uint64_t)want + 7));
}

std::unique_ptr<Elem> raw(Node *n, uint32_t tag, int wt, const std::string &s) {
  auto e = std::make_unique<Elem>();
  e->kind = Elem::UNKNOWN; e->tag = tag; e->wt = wt; e->raw = s; e->parent = n;
  return e;
}
std::string len(size_t n) { std::string s; put_varint(s, n); return s; }

// Damage at one level; true if the whole message is malformed for sure.
bool damage(Rng &r, const Universe &u, Node *n, const char **what) {
  const MsgDef &d = u.msgs[(size_t)n->msg];
  uint32_t tag = !d.fields.empty() && r.flip() ? d.fields[r.below(d.fields.size())].tag : 1 + (uint32_t)r.below(40);
  size_t at = r.below(n->el.size() + 1);
  std::unique_ptr<Elem> e;
  switch (r.below(6)) {
    case 0: { static const int W[] = {3, 4, 6, 7}; *what = "illegal wire type"; e = raw(n, tag, W[r.below(4)], ""); break; }
    case 1: *what = "tag zero"; e = raw(n, 0, 0, std::string(1, '\0')); break;
    case 2: { *what = "overlong varint";
      uint32_t t; do t = 1 + (uint32_t)r.below(1000); while (d.find(t));
      e = raw(n, t, 0, std::string(10 + r.below(5), '\xff') + '\x01'); break; }
    case 3: { *what = "length past the end"; size_t k = 1 + r.below(300);
      uint32_t t; do t = 1 + (uint32_t)r.below(100); while (d.find(t) && r.below(4));
      if (d.find(t) && wiretype(d.find(t)->type) != WT_LEN && !d.find(t)->packed) return false;
      e = raw(n, t, 2, len(k) + std::string(r.below(k), 'y')); at = n->el.size(); break; }
    case 4: { // a damaged value of a known field
      std::vector<const FieldDef *> c;
      for (auto &f : d.fields) if (f.type == PB_TYPE_MESSAGE || f.packed) c.push_back(&f);
      if (c.empty()) return false;
      const FieldDef &f = *c[r.below(c.size())];
      std::string b;
      if (f.packed) { *what = "cut packed run"; b = payload(field_val(r, u, f)); b.pop_back();
        if (b.empty()) return false; }
      else {
        *what = "cut submessage";
        GenParams g; g.max_depth = 1; g.required_all = true;
        auto m = random_node(r, u, f.nested, g);
        if (m->el.empty()) return false;
        b = encode(*m);
        size_t last = encode(*m).size();
        Elem *x = m->el.back().get();
        std::string xb; encode(*x, xb);
        last -= xb.size();
        b = b.substr(0, last + 1 + r.below(xb.size() - 1 ? xb.size() - 1 : 1));
        if (b.size() >= last + xb.size()) return false;
      }
      e = raw(n, f.tag, 2, len(b.size()) + b); break; }
    default: { *what = "cut fixed-width value"; bool w64 = r.flip();
      uint32_t t; do t = 1 + (uint32_t)r.below(1000); while (d.find(t));
      e = raw(n, t, w64 ? 1 : 5, std::string(r.below(w64 ? 8 : 4), 'z')); at = n->el.size(); break; }
  }
  n->el.insert(n->el.begin() + (long)at, std::move(e));
  return true;
}

void verdict(Rng &r, uint64_t id) {
  Universe u;
  Params p; p.messages = 2 + (int)r.below(4); p.max_fields = 3 + (int)r.below(10);
  p.required_heavy = true; p.wide = 30;
  random_universe(r, u, p);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.required_all = r.below(8); g.empty_runs = r.one_in(4);
  g.big = r.one_in(20);
  auto n = random_node(r, u, 0, g);
  std::string text; show(*n, text);
  op("schema %s", u.show().c_str());
  op("%s", text.c_str());
  std::string b = encode(*n);
  if (b.size() > 20000) return;
  if (id < 2) mon::sample(u.show() + " " + mon::hex(b));
  bool ok = complete(u, *n);
  check(u, 0, b, ok ? PB_ERROR_NONE : PB_ERROR_ABSENT, "whole");
  // Drop required fields one at a time, anywhere.
  auto all = nodes(*n);
  std::vector<Elem *> dropped;
  for (int i = 0; i < 6; i++) {
    Node *m = all[r.below(all.size())];
    std::vector<Elem *> c;
    for (auto &e : m->el) if (e->f && e->f->label == PB_LABEL_REQUIRED) c.push_back(e.get());
    if (c.empty()) continue;
    uint32_t tag = c[r.below(c.size())]->tag;
    std::vector<Elem *> gone;
    for (auto &e : m->el) if (e->tag == tag && !e->dead) {
      if (!gone.empty() && r.one_in(3)) break;        // leave a later occurrence
      e->dead = true; gone.push_back(e.get()); dropped.push_back(e.get());
    }
    op("without %u of M%d", tag, m->msg);
    bool c2 = complete(u, *n);
    check(u, 0, encode(*n), c2 ? PB_ERROR_NONE : PB_ERROR_ABSENT, "without a required field");
    mon::count(m->owner ? "dropped-nested" : "dropped-root");
    for (auto *e : gone) if (r.below(4)) e->dead = false;
  }
  for (auto *e : dropped) e->dead = false;
  // The same with unknown fields added everywhere.
  if (r.flip()) {
    for (auto *m : nodes(*n)) if (r.flip()) {
      size_t at = r.below(m->el.size() + 1);
      m->el.insert(m->el.begin() + (long)at, unknown_elem(r, u, *m));
    }
    check(u, 0, encode(*n), ok ? PB_ERROR_NONE : PB_ERROR_ABSENT, "with unknown fields");
    mon::count("with-unknown");
  }
  // Every prefix.
  b = encode(*n);
  if (b.size() <= 400 || r.one_in(10)) {
    std::vector<size_t> ends = {0};
    for (auto &e : n->el) { std::string x; encode(*e, x); ends.push_back(ends.back() + x.size()); }
    size_t k = 0;
    for (size_t c = 0; c < b.size(); c++) {
      while (k + 1 < ends.size() && ends[k + 1] <= c) k++;
      if (b.size() > 400 && r.below(b.size() / 200 + 1)) continue;
      if (ends[k] == c) check(u, 0, b.substr(0, c), complete(u, *n, k) ? PB_ERROR_NONE : PB_ERROR_ABSENT, "prefix");
      else check(u, 0, b.substr(0, c), -1, "cut");
      mon::count("prefixes");
    }
  }
  // Damage anywhere.
  for (int i = 0; i < 3; i++) {
    auto m = nodes(*n);
    Node *x = m[r.below(m.size())];
    std::vector<std::unique_ptr<Elem>> keep;
    const char *what = "";
    size_t before = x->el.size();
    std::vector<Elem *> order;
    for (auto &e : x->el) order.push_back(e.get());
    if (!damage(r, u, x, &what)) continue;
    op("damage in M%d: %s", x->msg, what);
    // A submessage cut before a message-typed element becomes visible is malformed
    // whatever its other fields are.
    check(u, 0, encode(*n), -1, what);
    mon::count((std::string("damage:") + what).c_str());
    if (x->el.size() != before + 1) mon::harness_bug("damage");
    for (size_t k = 0; k < x->el.size(); k++)
      if (std::find(order.begin(), order.end(), x->el[k].get()) == order.end()) { x->el.erase(x->el.begin() + (long)k); break; }
  }
}

// Recursive types, up to and beyond the depth limit.
void depth(Rng &r, uint64_t id) {
  Universe u;
  u.enums.push_back({{{0, "E"}}});
  u.msgs.resize(1);
  FieldDef m; m.tag = 1 + (uint32_t)r.below(20); m.type = PB_TYPE_MESSAGE; m.nested = 0; m.name = "m";
  m.label = r.flip() ? PB_LABEL_OPTIONAL : PB_LABEL_REPEATED;
  FieldDef q; do q.tag = 1 + (uint32_t)r.below(20); while (q.tag == m.tag);
  q.type = PB_TYPE_UINT32; q.label = PB_LABEL_REQUIRED; q.name = "q";
  u.msgs[0].fields = {m, q};
  std::sort(u.msgs[0].fields.begin(), u.msgs[0].fields.end(), [](const FieldDef &a, const FieldDef &b) { return a.tag < b.tag; });
  u.build();
  static const size_t D[] = {1, 2, 17, 100, 510, 511, 512, 513, 514, 600, 2000, 20000};
  size_t levels = id < 12 ? D[id] : r.flip() ? 1 + r.below(512) : 508 + r.below(10);
  size_t missing = r.flip() ? r.below(levels + 1) : (size_t)-1;
  std::string b;
  for (size_t k = 0; k <= levels; k++) {       // innermost first
    std::string value, sub;
    if (k != missing) { put_varint(value, (uint64_t)q.tag << 3); value += '\x05'; }
    if (k) { put_varint(sub, (uint64_t)m.tag << 3 | 2); put_varint(sub, b.size()); sub += b; }
    b = r.flip() ? value + sub : sub + value;
  }
  op("%zu levels, value missing at %zd", levels, (ssize_t)missing);
  if (levels > 512) { check(u, 0, b, -1, "too deep"); mon::count("too-deep"); }
  else { check(u, 0, b, missing == (size_t)-1 ? PB_ERROR_NONE : PB_ERROR_ABSENT, "deep"); mon::count("deep"); }
}

// Schemas of thousands of fields, nested: what a level costs must not grow with
// them, and a required field counts wherever it stands.
void wide(Rng &r, uint64_t id) {
  Universe u;
  u.enums.push_back({{{0, "E"}}});
  u.msgs.resize(1);
  static const size_t W[] = {20000, 5000, 129, 1000, 64, 65, 256, 257, 4096, 8191};
  size_t n = id < 10 ? W[id] : r.flip() ? 60 + r.below(400) : 500 + r.below(10000);
  uint32_t tag = 0;
  size_t rec = r.below(n);
  std::vector<uint32_t> need;
  bool gaps = r.flip();
  for (size_t k = 0; k < n; k++) {
    tag += 1 + (gaps ? (uint32_t)r.below(5) : 0);
    FieldDef f; f.tag = tag; f.name = "f"; f.type = PB_TYPE_UINT32; f.label = PB_LABEL_OPTIONAL;
    if (k == rec) { f.type = PB_TYPE_MESSAGE; f.nested = 0; f.label = r.flip() ? PB_LABEL_OPTIONAL : PB_LABEL_REPEATED; }
    else if (r.one_in(n > 40 ? (uint32_t)n / 8 : 5)) { f.label = PB_LABEL_REQUIRED; need.push_back(tag); }
    u.msgs[0].fields.push_back(f);
  }
  uint32_t sub = u.msgs[0].fields[rec].tag;
  u.build();
  size_t levels = id < 2 ? 500 : r.one_in(4) ? 400 + r.below(113) : r.below(60);
  if (levels * need.size() > 6000) levels = 6000 / need.size();
  size_t missing = !need.empty() && r.flip() ? r.below(levels + 1) : (size_t)-1;
  uint32_t which = need.empty() ? 0 : r.one_in(3) ? need.back() : need[r.below(need.size())];
  std::string b;
  for (size_t k = 0; k <= levels; k++) {
    std::vector<std::string> parts;
    for (uint32_t t : need) if (k != missing || t != which)
      for (size_t c = r.one_in(10) ? 3 : 1; c; c--) {
        std::string x; put_varint(x, (uint64_t)t << 3); x += '\x05'; parts.push_back(x);
      }
    if (k) { std::string x; put_varint(x, (uint64_t)sub << 3 | 2); put_varint(x, b.size()); parts.push_back(x + b); }
    for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[r.below(i)]);
    b.clear();
    for (auto &x : parts) b += x;
  }
  op("%zu fields, %zu required, %zu levels, %u missing at %zd", n, need.size(), levels, which, (ssize_t)missing);
  check(u, 0, b, missing == (size_t)-1 ? PB_ERROR_NONE : PB_ERROR_ABSENT, "wide");
  mon::count(levels > 300 ? "wide-deep" : "wide");
  if (missing != (size_t)-1) mon::count("wide-incomplete");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"verdict", verdict, 12000, 700000}, {"depth", depth, 400, 4000}, {"wide", wide, 160, 3000}});
}
