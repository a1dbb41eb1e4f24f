// C13: zero-copy journals and buffers.
#include "act.hh"
#include "guard.hh"
#include "hook_malloc.hh"

namespace {

Guarded *g_mem;
struct ReadOnly : Weights {
  ReadOnly() {
    readonly = true;
    put = put_sub = erase = within = clear_msg = field_new = field_put = field_clear =
      cursor_put = cursor_erase = 0;
    nested = 6; read = 6; audit = 2; cursor_new = 8; msg_from_cursor = 8;
  }
};

// The element a write through a message lands on without changing anything else.
Elem *reach(Node *n, const FieldDef &f) {
  if (f.label == PB_LABEL_REPEATED) return nullptr;
  Place p = place(*n, f.tag);
  if (!p.match) return nullptr;
  if (f.oneof >= 0)
    for (size_t i = p.from; i < n->el.size(); i++) {
      Elem *e = n->el[i].get();
      if (e->visible() && e->f->oneof == f.oneof && e->tag != f.tag) return nullptr;
    }
  return p.match;
}
bool any_member(Node *n, int o) {
  for (auto &e : n->el) if (e->visible() && e->f->oneof == o) return true;
  return false;
}
bool present(Node *n, const FieldDef &f) {
  if (f.oneof >= 0) return any_member(n, f.oneof);
  return last_of(*n, f.tag) != nullptr;
}
// A value whose encoding has as many bytes as that of v.
Val same_size(Session &s, const FieldDef &f, const Val &v) {
  size_t n = payload(v).size();
  Val x = field_val(s.r, s.u, f);
  if (x.is_str()) { x = v; for (auto &c : x.s) if (s.r.flip()) c = (char)('a' + s.r.below(26)); return x; }
  for (int i = 0; i < 12 && payload(x).size() != n; i++) x = field_val(s.r, s.u, f);
  return x;
}

void edit(Session &s) {
  Act a(s, s.r.next());
  if (a.op < 0) return;
  Handle *h = a.h;
  Node *n = h->kind == H_FIELD ? h->elem->parent : h->node;
  const FieldDef *f = a.f;
  // Resolve tag paths.
  bool whole = true;
  if (!a.tags.empty()) {
    Node *m = n;
    for (size_t k = 0; k + 1 < a.tags.size() && m; k++) {
      const FieldDef *d = s.def(m).find(a.tags[k]);
      Elem *e = a.op == NERASE ? readable(*m, *d) : reach(m, *d);
      m = e ? e->node.get() : nullptr;
    }
    whole = m != nullptr;
    n = m;
  }
  // What the operation addresses.
  enum { REFUSE, IN_PLACE, NOTHING } want = REFUSE;
  Val *slot = nullptr; Elem *el = nullptr;
  switch (a.op) {
    case PUT: case NPUT: case FCREATE: case FNESTED:
      if (whole && (el = reach(n, *f))) slot = &el->v;
      break;
    case FPUT: slot = h->pv ? &h->pv->v : &h->elem->v; f = h->elem->f; break;
    case CPUT: slot = h->pv ? &h->pv->v : &h->elem->v; f = h->elem->f; break;
    case PUT_MSG: el = reach(n, *f); break;
    case CPUT_MSG: el = h->elem; break;
    case WITHIN: case NCREATE: if (whole) el = reach(n, *f); break;
    default: break;
  }
  std::unique_ptr<Node> fresh;
  switch (a.op) {
    case PUT: case NPUT: case FPUT: case CPUT:
      if (!slot) break;
      if (s.r.below(4)) { a.v = same_size(s, *f, *slot); to_native(a.v, a.nv); }
      if (payload(a.v).size() == payload(*slot).size()) want = IN_PLACE;
      break;
    case PUT_MSG: case CPUT_MSG: {
      if (!el) break;
      GenParams g; g.max_depth = 2;
      size_t size = encode(*el->node).size();
      for (int i = 0; i < 4; i++) {
        fresh = random_node(s.r, s.u, el->f->nested, g, 1);
        if (encode(*fresh).size() == size) break;
      }
      if (encode(*fresh).size() != size && s.r.below(3)) {     // pad with an unknown field
        fresh = std::make_unique<Node>();
        fresh->msg = el->f->nested;
        for (size_t have = 0; have < size;) {
          auto e = unknown_elem(s.r, s.u, *fresh);
          if (s.u.msgs[(size_t)fresh->msg].find(e->tag)) continue;
          size_t left = size - have;
          if (1 + body(*e).size() > left) {
            // exactly: a length-delimited unknown field
            e->wt = WT_LEN; e->raw.clear();
            size_t t = 0; for (uint64_t x = (uint64_t)e->tag << 3; x; x >>= 7) t++;
            if (left < t + 1) break;
            size_t l = left - t - 1;
            if (l > 127) l = l > 20000 ? l / 2 : 100;
            put_varint(e->raw, l); e->raw.append(l, 'u');
          }
          std::string enc; encode(*e, enc); have += enc.size();
          fresh->el.push_back(std::move(e));
        }
      }
      a.sub = encode(*fresh);
      if (a.sub.size() == size) want = IN_PLACE;
      break;
    }
    case FCREATE: case FNESTED: if (slot) want = NOTHING; break;
    case WITHIN: case NCREATE: if (el) want = NOTHING; break;
    case ERASE: if (!present(n, *f)) want = NOTHING; break;
    case NERASE: if (!whole || !present(n, *f)) want = NOTHING; break;
    case CNESTED: if (whole) want = NOTHING; break;
    case OCLEAR: if (!any_member(n, h->oneof)) want = NOTHING; break;
    case CLEAR: if (!h->node->owner && s.bytes().empty()) want = NOTHING; break;
    default: break;
  }
  const char *name = NAMES[a.op];
  mon::op("%s on h%d, tag %u, value %s %s: expect %s", name, h->id, f ? f->tag : 0, a.v.show().c_str(),
    mon::hex(a.sub).c_str(), want == REFUSE ? "refusal" : want == IN_PLACE ? "in place" : "nothing");
  pb_error_t e;
  if (a.op == PUT_MSG || a.op == CPUT_MSG) {
    Guarded src(a.sub.empty() ? std::string("\n\0", 2) : a.sub);
    pb_journal_t j2 = a.sub.empty() ? pb_journal_create_empty() : pb_journal_create_zero_copy(src.data, src.size);
    std::string was = src.str();
    pb_message_t m2 = pb_message_create(s.u.desc[(size_t)(a.op == PUT_MSG ? f->nested : h->elem->f->nested)], &j2);
    e = a.run(&m2);
    pb_message_destroy(&m2);
    pb_journal_destroy(&j2);
    if (src.str() != was) violate("source-modified", "%s changed the message it reads", name);
  } else e = a.run(nullptr);
  if (g_sys_calls) violate("allocates", "%s on a zero-copy journal calls the system allocator", name);
  std::string k = name;
  if (want == REFUSE) {
    if (!e) violate(("accepted:" + k).c_str(), "%s changes the size but reports success", name);
    s.unchanged(name);
    mon::count("refused"); mon::count(("refused:" + k).c_str());
    if (!valid(*h)) { mon::count("lost-handles"); s.drop(h); }
  } else {
    if (e && !(a.op == NERASE && !whole)) violate(("refused:" + k).c_str(), "%s does not change the size but fails with error %d", name, e);
    if (want == NOTHING) { s.unchanged(name); mon::count("no-ops"); if (!valid(*h)) s.drop(h); }
    else {
      if (slot) *slot = a.v;
      else s.replace_content(el->node.get(), std::move(fresh));
      s.check_bytes(name);
      mon::count("in-place"); mon::count(("in-place:" + k).c_str());
    }
  }
  mon::distinct(mon::fnv(g_mem->str(), mon::fnv(k)));
}

void session_(Rng &r, uint64_t id) {
  sys_reset();
  g_sys_calls = 0;
  Universe u;
  Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 4 + (int)r.below(6);
  random_universe(r, u, p);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.big = r.one_in(12); g.empty_runs = r.one_in(4);
  ReadOnly w; w.max_handles = 10; w.oneof = 4;
  std::unique_ptr<Guarded> mem;
  g_make = [&](const std::string &b) {
    mem = std::make_unique<Guarded>(b);
    g_mem = mem.get();
    return b.empty() ? pb_journal_create_empty() : pb_journal_create_zero_copy(mem->data, mem->size);
  };
  std::string last;
  {
    Session s(r, u, g, w);
    g_make = nullptr;
    if (s.last_bytes.empty()) return;
    if (pb_journal_data(&s.j) != g_mem->data) violate("copied", "the journal does not use the caller's memory");
    if (id < 2) mon::sample(mon::hex(s.last_bytes));
    for (int i = 10 + (int)r.below(30); i > 0; i--) {
      if (r.flip()) s.step(); else edit(s);
      // Fields of submessages and packed runs to write through.
      if (r.one_in(4)) { Handle *c = s.pick(H_CURSOR, true); if (c) s.op_msg_from_cursor(); }
      if (pb_journal_data(&s.j) != g_mem->data || pb_journal_size(&s.j) != g_mem->size)
        violate("moved", "the journal no longer is the caller's memory");
      if (g_mem->str() != s.last_bytes) violate("memory", "the caller's memory differs from the journal's content");
    }
    s.run(0);
    last = s.last_bytes;
  }
  if (g_mem->str() != last) violate("modified-by-destroy", "destroying changed the caller's memory");
  if (g_sys_calls) violate("allocates", "reading a zero-copy journal calls the system allocator");
}

// Buffers as such: contents, refused resizes, decoding.
pb_error_t on_value(const pb_field_descriptor_t *d, const void *value, void *user) {
  auto t = pb_field_descriptor_type(d);
  if (t == PB_TYPE_STRING || t == PB_TYPE_BYTES) {
    pb_string_t s; memcpy(&s, value, sizeof s);
    if (s.size && !((Guarded *)user)->inside(s.data, s.size)) violate("decoder-copies", "a decoded string is not inside the caller's memory");
    mon::count("decoded-strings");
  }
  return PB_ERROR_NONE;
}
void buffer(Rng &r, uint64_t) {
  sys_reset();
  g_sys_calls = 0;
  Universe u; Params p; p.messages = 2;
  random_universe(r, u, p);
  GenParams g; g.max_depth = 2;
  std::string b = encode(*random_node(r, u, 0, g));
  if (b.empty()) b = random_string(r) + "x";
  Guarded m(b);
  pb_buffer_t x = pb_buffer_create_zero_copy(m.data, m.size);
  if (!pb_buffer_valid(&x) || pb_buffer_data(&x) != m.data || pb_buffer_size(&x) != m.size) violate("copied", "buffer");
  pb_decoder_t d = pb_decoder_create(u.desc[0], &x);
  pb_decoder_decode(&d, on_value, &m);
  pb_decoder_destroy(&d);
  for (int i = 0; i < 8; i++) {
    size_t s = r.below(b.size() + 1), e = s + r.below(b.size() - s + 1);
    std::string t = r.flip() ? std::string(e - s, 'q') : random_string(r);
    if (r.one_in(3)) {
      pb_error_t er = pb_buffer_clear(&x, s, e);
      if (!er != (s == e)) violate("buffer-clear", "clear(%zu, %zu) of %zu: error %d", s, e, b.size(), er);
    } else if (r.one_in(6)) {
      if (pb_buffer_grow(&x, 1 + r.below(9))) violate("buffer-grow", "a zero-copy buffer grows");
    } else {
      pb_error_t er = pb_buffer_write(&x, s, e, (const uint8_t *)t.data(), t.size());
      bool ok = t.size() == e - s;
      if (!er != ok) violate("buffer-write", "write(%zu, %zu, %zu bytes): error %d", s, e, t.size(), er);
      if (ok) b.replace(s, e - s, t);
    }
    mon::count("buffer-refusals");
    if (m.str() != b || pb_buffer_data(&x) != m.data || pb_buffer_size(&x) != b.size()) violate("buffer-content", "got %s want %s", mon::hex(m.str()).c_str(), mon::hex(b).c_str());
    mon::distinct(mon::fnv(b, s * 100 + e));
  }
  pb_buffer_destroy(&x);
  if (m.str() != b) violate("modified-by-destroy", "buffer");
  // The same through a journal.
  pb_journal_t j = pb_journal_create_zero_copy(m.data, m.size);
  for (int i = 0; i < 6; i++) {
    size_t s = r.below(b.size() + 1), e = s + r.below(b.size() - s + 1);
    std::string t = r.flip() ? std::string(e - s, 'r') : random_string(r);
    pb_error_t er = r.one_in(3) ? (t = "", pb_journal_clear(&j, s, s, e)) : pb_journal_write(&j, s, s, e, (const uint8_t *)t.data(), t.size());
    bool ok = t.size() == e - s;
    if (!er != ok) violate("journal-write", "write(%zu, %zu, %zu bytes): error %d", s, e, t.size(), er);
    if (ok) b.replace(s, e - s, t);
    if (m.str() != b || pb_journal_data(&j) != m.data || pb_journal_size(&j) != b.size()) violate("journal-content", "got %s want %s", mon::hex(m.str()).c_str(), mon::hex(b).c_str());
  }
  pb_journal_destroy(&j);
  if (m.str() != b) violate("modified-by-destroy", "journal");
  if (g_sys_calls) violate("allocates", "zero-copy buffers call the system allocator");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"session", session_, 9000, 500000}, {"buffer", buffer, 8000, 300000}});
}
