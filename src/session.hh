// A monitored editing session: random operations through live library handles,
// mirrored on the reference model; after every step the journal bytes and the
// answers of live handles are compared with the model.
#ifndef SESSION_HH
#define SESSION_HH
#include "model.hh"
extern "C" {
#include "message/cursor.h"
}
#ifdef MON_PBREF
#include "pbref.hh"
#endif

namespace session {
using namespace model;
using mon::op; using mon::violate;

struct Weights {
  // relative weights of operations (0 = never)
  int put = 10, put_sub = 3, erase = 5, within = 5, nested = 4, clear_msg = 1,
      field_new = 6, field_put = 6, field_clear = 3, field_from_cursor = 4,
      cursor_new = 6, cursor_next = 10, cursor_seek = 3, cursor_match = 3,
      cursor_put = 5, cursor_erase = 5, cursor_rewind = 2, msg_from_cursor = 4,
      oneof = 3, read = 6, audit = 2, drop = 2, boundary = 3;
  int max_handles = 10;
  int stale = 3;          // 1-in-n chance to re-check a given handle per step
  bool readonly = false;  // only operations that must not modify anything
  int sleepers = 0;       // 1-in-n handles are left alone for very long
  int msg_from_field = 0; // messages from fields of type bytes
  bool huge = false;      // contents around 2 MiB, too
  int reference = 0;      // 1-in-n sessions are also checked with libprotobuf
};

// Allocators of the edited journal and of other ones (null: the default one).
static pb_allocator_t *g_alloc, *g_alloc2;
static std::function<pb_journal_t(const std::string &)> g_make;   // overrides them
inline pb_journal_t make_journal(pb_allocator_t *a, const std::string &b) {
  const uint8_t *d = (const uint8_t *)b.data();
  if (a) return b.empty() ? pb_journal_create_empty_with_allocator(a) : pb_journal_create_with_allocator(a, d, b.size());
  return b.empty() ? pb_journal_create_empty() : pb_journal_create(d, b.size());
}

enum Kind { H_MSG, H_FIELD, H_CURSOR, H_ONEOF };

struct Handle {
  Kind kind;
  pb_message_t m; pb_field_t f; pb_cursor_t c; pb_oneof_t o;
  int id = 0;
  Node *node = nullptr;       // MSG: denoted; CURSOR/ONEOF: iterated message
  Elem *elem = nullptr;       // FIELD: denoted; CURSOR: current
  PVal *pv = nullptr;         // FIELD/CURSOR: value inside a packed run
  uint32_t tag = 0;           // CURSOR
  int oneof = -1;
  bool invalid = false;       // known to be invalid (destroyed content, cleared)
  bool sleeps = false;        // hardly ever picked
  int since = 0;              // edits made when last used
  bool eom = false;           // CURSOR reached the end
  bool dead() const {
    if (invalid) return true;
    switch (kind) {
      case H_MSG: case H_ONEOF: return node->dead;
      case H_FIELD: return elem->dead || (pv && pv->dead);
      case H_CURSOR: return node->dead;
    }
    return true;
  }
  bool cur_dead() const { return !elem || elem->dead || (pv && pv->dead); }
};

class Session {
 public:
  Rng &r; Universe &u; Weights w;
  GenParams gp;
  std::unique_ptr<Node> root;
  std::vector<std::unique_ptr<Node>> limbo;   // replaced content
  pb_journal_t j;
  std::vector<std::unique_ptr<Handle>> hs;
  int next_id = 1;
  int steps = 0, edits = 0;
  std::string last_bytes;

  Session(Rng &r_, Universe &u_, const GenParams &g, const Weights &w_)
      : r(r_), u(u_), w(w_), gp(g) {
    root = random_node(r, u, 0, gp);
    std::string b = encode(*root);
    op("schema %s", u.show().c_str());
    op("journal %s", mon::hex(b).c_str());
    std::string t; show(*root, t);
    op("%s", t.c_str());
    j = g_make ? g_make(b) : make_journal(g_alloc, b);
    if (pb_journal_error(&j)) violate("journal-create", "error %d", pb_journal_error(&j));
    last_bytes = b;
    add_root();
  }
  ~Session() {
    for (auto &h : hs) destroy(*h);
    pb_journal_destroy(&j);
  }

  // ---- helpers ------------------------------------------------------------
  const MsgDef &def(const Node *n) { return u.msgs[(size_t)n->msg]; }
  void destroy(Handle &h) {
    switch (h.kind) {
      case H_MSG: pb_message_destroy(&h.m); break;
      case H_FIELD: pb_field_destroy(&h.f); break;
      case H_CURSOR: pb_cursor_destroy(&h.c); break;
      case H_ONEOF: pb_oneof_destroy(&h.o); break;
    }
  }
  void drop(Handle *h) {
    for (size_t i = 0; i < hs.size(); i++) if (hs[i].get() == h) {
      destroy(*h); hs.erase(hs.begin() + (long)i); return;
    }
  }
  Handle *add(Kind k) {
    if ((int)hs.size() >= w.max_handles) {
      // never drop all: keep at least the newest
      size_t k = r.below(hs.size());
      for (size_t i = 0; i < hs.size() && hs[k]->sleeps; i++) k = (k + 1) % hs.size();
      drop(hs[k].get());
    }
    hs.push_back(std::make_unique<Handle>());
    hs.back()->kind = k; hs.back()->id = next_id++;
    if (w.sleepers && r.one_in((uint64_t)w.sleepers)) {
      int n = 0;
      for (auto &h : hs) n += h->sleeps;
      if (2 * n < w.max_handles) { hs.back()->sleeps = true; hs.back()->since = edits; }
    }
    return hs.back().get();
  }
  Handle *add_root() {
    Handle *h = add(H_MSG);
    h->m = pb_message_create(u.desc[0], &j);
    h->node = root.get();
    if (!pb_message_valid(&h->m)) violate("message-create", "root message invalid");
    op("h%d = root message", h->id);
    return h;
  }
  Handle *pick(Kind k, bool alive_only = false) {
    std::vector<Handle *> c;
    for (auto &h : hs)
      if (h->kind == k && !(alive_only && h->dead()) && (!h->sleeps || r.one_in(150))) c.push_back(h.get());
    if (c.empty()) return nullptr;
    Handle *h = c[r.below(c.size())];
    h->since = edits;
    return h;
  }
  // A message handle, preferably alive; makes a root one if there is none.
  Handle *pick_msg() {
    Handle *h = pick(H_MSG, !r.one_in(12));
    return h ? h : add_root();
  }
  static bool under(const Node *n, const Node *anc) {   // n strictly below anc
    for (const Elem *e = n->owner; e; e = e->parent->owner)
      if (e->parent == anc) return true;
    return false;
  }
  // Kill an element (and all inside).
  static void kill(Elem *e) {
    e->dead = true;
    for (auto &p : e->run) p->dead = true;
    if (e->node) kill_node(e->node.get());
  }
  static void kill_node(Node *n) {
    n->dead = true;
    for (auto &e : n->el) kill(e.get());
  }
  void kill_val(PVal *p) {
    p->dead = true;
    if (!p->parent->live()) p->parent->dead = true;
  }
  // An insertion next to a tombstone a cursor stands on: position undefined.
  void resolve_ambiguity(Node *n, size_t at) {
    std::vector<Handle *> bad;
    for (auto &h : hs) {
      if (h->kind != H_CURSOR || h->node != n || !h->elem || h->eom) continue;
      if (!h->cur_dead()) continue;
      // tombstones adjacent to `at`
      size_t i = 0;
      while (i < n->el.size() && n->el[i].get() != h->elem) i++;
      bool adj = true;
      for (size_t k = std::min(i, at); k < std::max(i, at); k++)
        if (!n->el[k]->dead && n->el[k].get() != h->elem) adj = false;
      if (adj || !h->elem->dead) bad.push_back(h.get());
    }
    for (Handle *h : bad) { op("(drop h%d: position ambiguous)", h->id); drop(h); }
  }
  void insert(Node *n, size_t at, std::unique_ptr<Elem> e) {
    resolve_ambiguity(n, at);
    e->parent = n;
    n->el.insert(n->el.begin() + (long)at, std::move(e));
  }
  // Replace the content of a submessage wholesale: handles below are dropped.
  void replace_content(Node *n, std::unique_ptr<Node> fresh) {
    std::vector<Handle *> bad;
    for (auto &h : hs) {
      bool b = false;
      if (h->kind == H_MSG) b = under(h->node, n);
      else if (h->kind == H_FIELD) b = h->elem->parent == n || under(h->elem->parent, n);
      else b = h->node == n || under(h->node, n);
      if (b) bad.push_back(h.get());
    }
    for (Handle *h : bad) drop(h);
    auto keep = std::make_unique<Node>();
    keep->el.swap(n->el);
    kill_node(keep.get());
    limbo.push_back(std::move(keep));
    n->el.swap(fresh->el);
    for (auto &e : n->el) e->parent = n;
  }

  std::string bytes() {
    return std::string((const char *)pb_journal_data(&j), pb_journal_size(&j));
  }
  void check_bytes(const char *what) {
    std::string got = bytes(), want = encode(*root);
    mon::count("byte-comparisons");
    if (pb_journal_error(&j)) violate("journal-error", "after %s: %d", what, pb_journal_error(&j));
    if (got != want) {
      std::string t; show(*root, t);
      violate((std::string("bytes:") + what).c_str(),
        "after %s (step %d)\n got %s\nwant %s\nmodel:\n%s", what, steps,
        mon::hex(got).c_str(), mon::hex(want).c_str(), t.c_str());
    }
    if (got != last_bytes) { edits++; last_bytes = got; mon::distinct(mon::fnv(got, mon::fnv(what, strlen(what)))); }
  }
  void unchanged(const char *what) {
    if (bytes() != last_bytes)
      violate((std::string("modified-by:") + what).c_str(), "%s changed the message\n was %s\n now %s",
        what, mon::hex(last_bytes).c_str(), mon::hex(bytes()).c_str());
  }
  static void expect(const char *key, bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (ok) return;
    char buf[600];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    violate(key, "%s", buf);
  }

  // ---- submessages, declared or in fields of type bytes ----------------------
  pb_message_t from_field(pb_field_t x, const FieldDef &f) {
    pb_message_t s = pb_message_create_from_field(u.desc[(size_t)f.nested], &x);
    expect("from-field-valid", pb_message_valid(&s) == pb_field_valid(&x), "field %u: field valid %d but message %d",
      f.tag, pb_field_valid(&x), pb_message_valid(&s));
    pb_field_destroy(&x);
    mon::count("messages-on-bytes");
    return s;
  }
  pb_message_t sub_within(pb_message_t *m, const FieldDef &f) {
    return f.opaque ? from_field(pb_field_create(m, f.tag), f) : pb_message_create_within(m, f.tag);
  }
  pb_message_t sub_nested(pb_message_t *m, std::vector<pb_tag_t> &t, const FieldDef &f) {
    return f.opaque ? from_field(pb_field_create_nested(m, t.data(), t.size()), f)
      : pb_message_create_nested(m, t.data(), t.size());
  }
  pb_message_t sub_from(pb_cursor_t *c, const FieldDef &f) {
    return f.opaque ? from_field(pb_field_create_from_cursor(c), f) : pb_message_create_from_cursor(c);
  }
  static Val content(const Node &n) { Val v; v.type = PB_TYPE_BYTES; v.s = encode(n); return v; }

  // ---- reads ---------------------------------------------------------------
  // Compare every answer about one field of a live message handle.
  void check_field(pb_message_t *m, Node *n, const FieldDef &f, const char *who) {
    const Elem *x = f.label == PB_LABEL_REPEATED ? last_of(*n, f.tag) : readable(*n, f);
    mon::count("field-reads");
    int has = pb_message_has(m, f.tag);
    expect("has", !!has == !!x, "%s: has(%u) = %d, expected %d", who, f.tag, has, !!x);
    if (f.opaque && f.label != PB_LABEL_REPEATED) {
      Native out;
      pb_error_t e = pb_message_get(m, f.tag, out.b);
      if (x) {
        Val want = content(*x->node);
        expect("get-bytes", !e && from_native(PB_TYPE_BYTES, out.b) == want, "%s: get(%u) as bytes: error %d, expected %s", who, f.tag, e, want.show().c_str());
        Native nv; to_native(want, nv);
        expect("match-bytes", pb_message_match(m, f.tag, nv.b) == 1, "%s: match(%u, own bytes) fails", who, f.tag);
      } else expect("get-bytes-absent", e == PB_ERROR_ABSENT, "%s: get(%u) as bytes: error %d, expected absent", who, f.tag, e);
    }
    if (f.type == PB_TYPE_MESSAGE) return;
    if (f.label != PB_LABEL_REPEATED) {
      Native out;
      pb_error_t e = pb_message_get(m, f.tag, out.b);
      if (x || f.hasdef) {
        const Val &want = x ? x->v : f.def;
        expect(x ? "get-error" : "get-default-error", !e, "%s: get(%u) error %d, expected %s", who, f.tag, e, want.show().c_str());
        Val got = from_native(f.type, out.b);
        expect(x ? "get-value" : "get-default", got == want, "%s: get(%u) = %s, expected %s", who, f.tag, got.show().c_str(), want.show().c_str());
        if (got.is_str() && x) {
          pb_string_t s; memcpy(&s, out.b, sizeof s);
          const uint8_t *d = pb_journal_data(&j);
          expect("get-outside", !s.size || (s.data >= d && s.data + s.size <= d + pb_journal_size(&j)), "%s: get(%u) outside the journal", who, f.tag);
        }
        if (x) {
          Native nv; to_native(want, nv);
          expect("match", pb_message_match(m, f.tag, nv.b) == 1, "%s: match(%u, own value) fails", who, f.tag);
        }
      } else expect("get-absent", e == PB_ERROR_ABSENT, "%s: get(%u) error %d, expected absent", who, f.tag, e);
      Val other = field_val(r, u, f);
      Native nv; to_native(other, nv);
      int mt = pb_message_match(m, f.tag, nv.b);
      expect("match-other", !!mt == (x && x->v == other), "%s: match(%u, %s) = %d", who, f.tag, other.show().c_str(), mt);
    } else {
      std::vector<Val> vals = values(n, f.tag);
      Val probe = vals.empty() || r.one_in(3) ? field_val(r, u, f) : vals[r.below(vals.size())];
      Native nv; to_native(probe, nv);
      int mt = pb_message_match(m, f.tag, nv.b);
      bool want = std::find(vals.begin(), vals.end(), probe) != vals.end();
      expect("match-repeated", !!mt == want, "%s: match(%u, %s) = %d", who, f.tag, probe.show().c_str(), mt);
    }
  }
  static std::vector<Val> values(const Node *n, uint32_t tag) {
    std::vector<Val> v;
    for (auto &e : n->el) if (e->tag == tag && e->visible()) {
      if (e->kind == Elem::PACKED) { for (auto &p : e->run) if (!p->dead) v.push_back(p->v); }
      else if (e->kind != Elem::MSG) v.push_back(e->v);
    }
    return v;
  }
  // All stops of a cursor over `tag`, in order.
  struct Stop { Elem *e; PVal *p; };
  static std::vector<Stop> stops(const Node *n, uint32_t tag) {
    std::vector<Stop> v;
    for (auto &e : n->el) if ((!tag || e->tag == tag) && e->visible()) {
      if (e->kind == Elem::PACKED) { for (auto &p : e->run) if (!p->dead) v.push_back({e.get(), p.get()}); }
      else v.push_back({e.get(), nullptr});
    }
    return v;
  }
  // Full comparison of a live message with the model through fresh handles.
  void audit(pb_message_t *m, Node *n, int depth, const char *who) {
    for (auto &f : def(n).fields) {
      check_field(m, n, f, who);
      auto st = stops(n, f.tag);
      if (f.label == PB_LABEL_REPEATED || f.type == PB_TYPE_MESSAGE) {
        if (f.label != PB_LABEL_REPEATED) {
          Elem *x = readable(*n, f);
          st.clear();
          if (x) st.push_back({x, nullptr});
        }
        pb_cursor_t c = pb_cursor_create(m, f.tag);
        size_t k = 0;
        if (pb_cursor_valid(&c)) do {
          expect("audit-extra", k < st.size(), "%s: cursor over %u yields more than %zu elements", who, f.tag, st.size());
          const FieldDef *cf = def(n).find(pb_field_descriptor_tag(pb_cursor_descriptor(&c)));
          expect("audit-field", cf == &f, "%s: cursor over %u stands on another field", who, f.tag);
          if (f.type == PB_TYPE_MESSAGE) {
            pb_message_t s = sub_from(&c, f);
            expect("audit-sub", pb_message_valid(&s), "%s: submessage %u invalid", who, f.tag);
            if (depth < 3) audit(&s, st[k].e->node.get(), depth + 1, who);
            pb_message_destroy(&s);
          } else {
            Native out;
            pb_error_t e = pb_cursor_get(&c, out.b);
            const Val &want = st[k].p ? st[k].p->v : st[k].e->v;
            expect("audit-get", !e && from_native(f.type, out.b) == want,
              "%s: cursor over %u element %zu: error %d value %s expected %s", who, f.tag, k, e,
              e ? "-" : from_native(f.type, out.b).show().c_str(), want.show().c_str());
          }
          k++;
        } while (pb_cursor_next(&c));
        expect("audit-count", k == st.size(), "%s: cursor over %u yields %zu elements, expected %zu", who, f.tag, k, st.size());
        expect("audit-eom", pb_cursor_error(&c) == PB_ERROR_EOM, "%s: cursor over %u ends with error %d", who, f.tag, pb_cursor_error(&c));
        pb_cursor_destroy(&c);
        mon::count("cursor-sweeps");
      }
    }
    for (int o = 0; o < def(n).oneofs; o++) check_case(m, n, o, who);
    sweep(m, n, who);
    mon::distinct(mon::fnv(last_bytes, 77 + (uint64_t)n->msg + 1000 * (uint64_t)depth));
    unchanged("reads");
  }
  // A cursor without a tag stops at every known field in wire order.
  void sweep(pb_message_t *m, Node *n, const char *who) {
    std::vector<Stop> st = stops(n, 0);
    pb_cursor_t c = pb_cursor_create_without_tag(m);
    size_t k = 0;
    if (pb_cursor_valid(&c)) do {
      expect("sweep-extra", k < st.size(), "%s: cursor over all fields yields more than %zu elements", who, st.size());
      expect("sweep-tag", pb_cursor_tag(&c) == st[k].e->tag, "%s: cursor over all fields, element %zu: field %u, expected %u",
        who, k, pb_cursor_tag(&c), st[k].e->tag);
      if (st[k].e->kind != Elem::MSG) {
        const Val &want = st[k].p ? st[k].p->v : st[k].e->v;
        Native out;
        pb_error_t e = pb_cursor_get(&c, out.b);
        expect("sweep-get", !e && from_native(want.type, out.b) == want, "%s: cursor over all fields, element %zu: error %d value %s expected %s",
          who, k, e, e ? "-" : from_native(want.type, out.b).show().c_str(), want.show().c_str());
      }
      else if (st[k].e->f->opaque) {
        Val want = content(*st[k].e->node);
        Native out;
        pb_error_t e = pb_cursor_get(&c, out.b);
        expect("sweep-bytes", !e && from_native(PB_TYPE_BYTES, out.b) == want, "%s: cursor over all fields, element %zu: error %d, expected bytes %s",
          who, k, e, want.show().c_str());
        Native nv; to_native(want, nv);
        expect("sweep-match-bytes", pb_cursor_match(&c, nv.b) == 1, "%s: cursor over all fields, element %zu doesn't match its bytes", who, k);
      }
      k++;
    } while (pb_cursor_next(&c));
    expect("sweep-count", k == st.size(), "%s: cursor over all fields yields %zu elements, expected %zu", who, k, st.size());
    expect("sweep-eom", pb_cursor_error(&c) == PB_ERROR_EOM, "%s: cursor over all fields ends with error %d", who, pb_cursor_error(&c));
    pb_cursor_destroy(&c);
    mon::count("full-sweeps");
  }
  void check_case(pb_message_t *m, Node *n, int o, const char *who) {
    pb_oneof_t x = pb_oneof_create(u.odesc[(size_t)n->msg][(size_t)o], m);
    expect("oneof-create", pb_oneof_valid(&x), "%s: oneof %d invalid", who, o);
    pb_tag_t t = pb_oneof_case(&x);
    const Elem *a = active(*n, o);
    expect("oneof-case", t == (a ? a->tag : 0), "%s: oneof %d case %u, expected %u", who, o, t, a ? a->tag : 0);
    int present = 0;
    for (auto &f : def(n).fields) if (f.oneof == o) present += pb_message_has(m, f.tag);
    expect("oneof-exclusive", present == (a ? 1 : 0), "%s: %d members of oneof %d present", who, present, o);
    pb_oneof_destroy(&x);
    mon::count("oneof-cases");
  }

  // Verify one live handle against what it must denote.
  void verify(Handle &h) {
    char who[32]; snprintf(who, sizeof who, "h%d", h.id);
    mon::count(h.dead() ? "dead-handle-checks" : "live-handle-checks");
    if (edits - h.since > 255 && h.sleeps) mon::count(edits - h.since > 1023 ? "woken-after-1024-edits" : "woken-after-256-edits");
    h.since = edits;
    switch (h.kind) {
      case H_MSG: {
        const MsgDef &d = u.msgs[(size_t)h.node->msg];
        if (d.fields.empty()) return;
        const FieldDef &f = d.fields[r.below(d.fields.size())];
        if (h.dead()) { verify_dead_msg(h, f, who); return; }
        check_field(&h.m, h.node, f, who);
        break;
      }
      case H_FIELD: {
        if (h.elem->f->opaque && !h.dead()) { verify_bytes(h, who); break; }
        Native out;
        pb_error_t e = pb_field_get(&h.f, out.b);
        if (h.dead()) {
          expect("dead-field-get", e == PB_ERROR_INVALID, "%s: get through a handle of a removed field: error %d", who, e);
          expect("dead-field-valid", !pb_field_valid(&h.f), "%s: removed field still reports valid after use", who);
          Val v = field_val(r, u, *h.elem->f); Native nv; to_native(v, nv);
          expect("dead-field-match", !pb_field_match(&h.f, nv.b), "%s: removed field matches", who);
          h.invalid = true;
          return;
        }
        const Val &want = h.pv ? h.pv->v : h.elem->v;
        expect("field-get", !e && from_native(want.type, out.b) == want, "%s: field get error %d value %s, expected %s",
          who, e, e ? "-" : from_native(want.type, out.b).show().c_str(), want.show().c_str());
        Native nv; to_native(want, nv);
        expect("field-match", pb_field_match(&h.f, nv.b) == 1, "%s: field does not match its value %s", who, want.show().c_str());
        Val other = field_val(r, u, *h.elem->f);
        to_native(other, nv);
        expect("field-match-other", !!pb_field_match(&h.f, nv.b) == (other == want), "%s: match(%s) on %s", who, other.show().c_str(), want.show().c_str());
        break;
      }
      case H_CURSOR: {
        if (h.dead() || h.eom || h.cur_dead()) {
          Native out;
          pb_error_t e = pb_cursor_get(&h.c, out.b);
          expect("dead-cursor-get", e == PB_ERROR_INVALID, "%s: get through a cursor without element: error %d", who, e);
          if (h.elem && h.elem->f->type != PB_TYPE_MESSAGE) {
            Val v = field_val(r, u, *h.elem->f); Native nv; to_native(v, nv);
            expect("dead-cursor-match", !pb_cursor_match(&h.c, nv.b), "%s: match through a cursor without element", who);
          }
          if (h.eom) expect("cursor-eom", h.dead() || pb_cursor_error(&h.c) == PB_ERROR_EOM, "%s: error %d at end", who, pb_cursor_error(&h.c));
          return;
        }
        expect("cursor-valid", pb_cursor_valid(&h.c), "%s: cursor invalid: %d", who, pb_cursor_error(&h.c));
        expect("cursor-descriptor", pb_field_descriptor_tag(pb_cursor_descriptor(&h.c)) == h.elem->tag,
          "%s: cursor on field %u, expected %u", who, pb_field_descriptor_tag(pb_cursor_descriptor(&h.c)), h.elem->tag);
        if (h.elem->kind == Elem::MSG) {
          pb_message_t s = sub_from(&h.c, *h.elem->f);
          expect("cursor-sub", pb_message_valid(&s), "%s: message from cursor invalid", who);
          for (auto &f : def(h.elem->node.get()).fields) if (r.one_in(3)) check_field(&s, h.elem->node.get(), f, who);
          pb_message_destroy(&s);
        } else {
          const Val &want = h.pv ? h.pv->v : h.elem->v;
          Native out;
          pb_error_t e = pb_cursor_get(&h.c, out.b);
          expect("cursor-get", !e && from_native(want.type, out.b) == want, "%s: cursor get error %d value %s, expected %s",
            who, e, e ? "-" : from_native(want.type, out.b).show().c_str(), want.show().c_str());
          Native nv; to_native(want, nv);
          expect("cursor-match", pb_cursor_match(&h.c, nv.b) == 1, "%s: cursor does not match its value", who);
        }
        break;
      }
      case H_ONEOF: {
        pb_tag_t t = pb_oneof_case(&h.o);
        const Elem *a = h.dead() ? nullptr : active(*h.node, h.oneof);
        expect("oneof-case", t == (a ? a->tag : 0), "%s: case %u, expected %u", who, t, a ? a->tag : 0);
        if (h.dead()) expect("oneof-dead", !pb_oneof_valid(&h.o), "%s: oneof of a removed message still valid", who);
        break;
      }
    }
  }
  void verify_dead_msg(Handle &h, const FieldDef &f, const char *who) {
    int mode = (int)r.below(4);
    Native out;
    if (mode == 0 || f.type == PB_TYPE_MESSAGE) {
      expect("dead-message-has", !pb_message_has(&h.m, f.tag), "%s: removed message has(%u)", who, f.tag);
    } else if (mode == 1 && f.label != PB_LABEL_REPEATED) {
      pb_error_t e = pb_message_get(&h.m, f.tag, out.b);
      expect("dead-message-get", e == PB_ERROR_INVALID, "%s: get on a removed message: error %d", who, e);
    } else if (mode == 2) {
      Val v = field_val(r, u, f); Native nv; to_native(v, nv);
      pb_error_t e = pb_message_put(&h.m, f.tag, nv.b);
      expect("dead-message-put", e == PB_ERROR_INVALID, "%s: put on a removed message: error %d", who, e);
    } else {
      pb_cursor_t c = pb_cursor_create(&h.m, f.tag);
      expect("dead-message-cursor", !pb_cursor_valid(&c), "%s: cursor on a removed message is valid", who);
      pb_cursor_destroy(&c);
    }
    unchanged("use of a removed message");
    pb_field_t fd = pb_field_create_invalid_for(&h.m, f);
    (void)fd;
  }
  pb_field_t pb_field_create_invalid_for(pb_message_t *m, const FieldDef &f) {
    if (f.type == PB_TYPE_MESSAGE) {
      pb_message_t s = sub_within(m, f);
      expect("dead-message-within", !pb_message_valid(&s), "submessage within a removed message is valid");
      pb_message_destroy(&s);
      unchanged("create within a removed message");
      return pb_field_t();
    }
    pb_field_t x = pb_field_create(m, f.tag);
    expect("dead-message-field", !pb_field_valid(&x), "field within a removed message is valid");
    pb_field_destroy(&x);
    unchanged("field create in a removed message");
    return x;
  }

  // ---- model side of edits --------------------------------------------------
  // Erase other members of the oneof as documented (succeeding ones).
  void oneof_put(Node *n, const FieldDef &f, const Place &p) {
    if (f.oneof < 0) return;
    for (size_t i = p.from; i < n->el.size(); i++) {
      Elem *e = n->el[i].get();
      if (e->visible() && e->f->oneof == f.oneof && e->tag != f.tag) kill(e);
    }
  }
  // The element (and packed value) a write through the message addresses;
  // created with value v if need be.
  struct Target { Elem *e; PVal *p; bool fresh; };
  Target target(Node *n, const FieldDef &f, const Val *v, bool empty_new) {
    Place p = place(*n, f.tag);
    oneof_put(n, f, p);
    if (p.match && f.label != PB_LABEL_REPEATED) {
      if (v) p.match->v = *v;
      return {p.match, nullptr, false};
    }
    if (f.packed) {
      Elem *e = p.match;
      if (!e || e->kind != Elem::PACKED) {
        auto x = std::make_unique<Elem>();
        x->kind = Elem::PACKED; x->tag = f.tag; x->f = &f;
        e = x.get();
        insert(n, p.at, std::move(x));
      } else resolve_ambiguity(n, p.at);
      e->run.push_back(std::make_unique<PVal>());
      PVal *pv = e->run.back().get();
      pv->parent = e;
      if (v) pv->v = *v;
      return {e, pv, true};
    }
    std::unique_ptr<Elem> x;
    if (f.type == PB_TYPE_MESSAGE) {
      x = std::make_unique<Elem>();
      x->kind = Elem::MSG; x->tag = f.tag; x->f = &f;
      x->node = std::make_unique<Node>();
      x->node->msg = f.nested; x->node->owner = x.get();
    } else x = scalar_elem(*n, f, *v);
    (void)empty_new;
    Elem *e = x.get();
    insert(n, p.at, std::move(x));
    return {e, nullptr, true};
  }

  const FieldDef *any_field(Node *n, std::function<bool(const FieldDef &)> ok) {
    std::vector<const FieldDef *> c;
    for (auto &f : def(n).fields) if (ok(f)) c.push_back(&f);
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  // A string length bringing an enclosing length prefix to a varint boundary.
  Val boundary_val(Node *n, const FieldDef &f) {
    Val v; v.type = f.type;
    Node *anc = n;
    while (anc->owner && r.flip()) anc = anc->owner->parent;
    Elem *old = f.label == PB_LABEL_REPEATED ? nullptr : const_cast<Elem *>(last_of(*n, f.tag));
    size_t cur = encode(*anc).size();
    size_t sub = old ? old->v.s.size() : 0;
    size_t goals[] = {126, 127, 128, 129, 130, 16381, 16383, 16384, 16386};
    size_t goal = goals[r.below(r.one_in(4) ? 9 : 5)];
    if (w.huge && r.flip()) { goal = 2097148 + r.below(8); mon::count("boundary:2MiB"); }
    size_t len = goal + sub > cur ? goal + sub - cur : r.below(8);
    size_t slack = r.below(8);
    len = len > slack ? len - slack : len;
    if (r.one_in(4)) len = goal;             // the prefix of the string itself
    v.s.assign(len, (char)('A' + r.below(26)));
    return v;
  }
  Val value_for(Node *n, const FieldDef &f) {
    if (wiretype(f.type) == WT_LEN && r.below(10) < (uint64_t)w.boundary) return boundary_val(n, f);
    return field_val(r, u, f, gp.big);
  }
  Elem *sub_elem(Node *n, const FieldDef &f) { return readable(*n, f); }

  // ---- operations -------------------------------------------------------------
  void op_put() {
    Handle *h = pick_msg();
    const FieldDef *f = any_field(h->node, [](const FieldDef &f) { return f.type != PB_TYPE_MESSAGE; });
    if (!f) return;
    Val v = value_for(h->node, *f);
    op("h%d.put(%u, %s)", h->id, f->tag, v.show().c_str());
    Native nv; to_native(v, nv);
    pb_error_t e = pb_message_put(&h->m, f->tag, nv.b);
    if (h->dead()) { expect("dead-put", e == PB_ERROR_INVALID, "put on removed message: %d", e); unchanged("put"); return; }
    expect("put-error", !e, "put(%u) error %d", f->tag, e);
    Node *n = h->node;
    target(n, *f, &v, false);
    check_bytes("put");
    if (f->label != PB_LABEL_REPEATED) check_field(&h->m, n, *f, "after put");
    mon::count("op:put");
  }
  void op_put_sub() {
    Handle *h = pick_msg();
    if (h->dead()) return;
    const FieldDef *f = any_field(h->node, [](const FieldDef &f) { return f.type == PB_TYPE_MESSAGE; });
    if (!f) return;
    GenParams g = gp; g.max_depth = 2;
    auto fresh = random_node(r, u, f->nested, g, (int)(1 + r.below(2)));
    std::string b = encode(*fresh);
    op("h%d.put(%u, message %s)", h->id, f->tag, mon::hex(b).c_str());
    pb_journal_t j2 = make_journal(g_alloc2, b);
    pb_message_t m2 = pb_message_create(u.desc[(size_t)f->nested], &j2);
    Val bv = content(*fresh); Native raw; to_native(bv, raw);
    pb_error_t e = pb_message_put(&h->m, f->tag, f->opaque ? (const void *)raw.b : &m2);
    expect("put-sub-error", !e, "put(%u) of submessage error %d", f->tag, e);
    Node *n = h->node;
    Target t = target(n, *f, nullptr, true);
    replace_content(t.e->node.get(), std::move(fresh));
    for (auto &x : t.e->node->el) x->parent = t.e->node.get();
    check_bytes("put-sub");
    std::string b2((const char *)pb_journal_data(&j2), pb_journal_size(&j2));
    expect("put-sub-source", b2 == b, "source message modified by put");
    pb_message_destroy(&m2); pb_journal_destroy(&j2);
    mon::count("op:put-sub");
  }
  void op_erase() {
    Handle *h = pick_msg();
    const FieldDef *f = any_field(h->node, [](const FieldDef &) { return true; });
    if (!f) return;
    op("h%d.erase(%u)", h->id, f->tag);
    pb_error_t e = pb_message_erase(&h->m, f->tag);
    if (h->dead()) { expect("dead-erase", e == PB_ERROR_INVALID || e == PB_ERROR_NONE, "erase on removed message: %d", e); unchanged("erase"); return; }
    expect("erase-error", !e, "erase(%u) error %d", f->tag, e);
    for (auto &x : h->node->el)
      if (x->visible() && (x->tag == f->tag || (f->oneof >= 0 && x->f->oneof == f->oneof))) kill(x.get());
    check_bytes("erase");
    check_field(&h->m, h->node, *f, "after erase");
    mon::count("op:erase");
  }
  // Fields of type bytes that hold messages.
  void keep_field(pb_field_t f, Elem *e) {
    Handle *x = add(H_FIELD);
    x->f = f; x->elem = e;
    op("  = h%d", x->id);
    mon::count("op:bytes-field");
  }
  void verify_bytes(Handle &h, const char *who) {
    Node *n = h.elem->node.get();
    if (r.flip()) {
      pb_message_t s = pb_message_create_from_field(u.desc[(size_t)n->msg], &h.f);
      expect("bytes-message", pb_message_valid(&s), "%s: message from field invalid", who);
      for (auto &f : def(n).fields) if (r.one_in(3)) check_field(&s, n, f, who);
      pb_message_destroy(&s);
    }
    Val want = content(*n);
    Native out, nv; to_native(want, nv);
    pb_error_t e = pb_field_get(&h.f, out.b);
    expect("bytes-get", !e && from_native(PB_TYPE_BYTES, out.b) == want, "%s: field get error %d value %s, expected %s",
      who, e, e ? "-" : from_native(PB_TYPE_BYTES, out.b).show().c_str(), want.show().c_str());
    expect("bytes-match", pb_field_match(&h.f, nv.b) == 1, "%s: field does not match its content", who);
  }
  void op_msg_from_field() {
    Handle *h = pick(H_FIELD, !r.one_in(8));
    if (!h || !h->elem->f->opaque) return;
    op("message(h%d)", h->id);
    Elem *e = h->elem;
    pb_message_t s = pb_message_create_from_field(u.desc[(size_t)e->f->nested], &h->f);
    unchanged("message from field");
    if (h->dead()) { expect("dead-bytes", !pb_message_valid(&s), "message from a removed field valid"); return; }
    expect("message-from-field", pb_message_valid(&s), "message from field invalid");
    Handle *x = add(H_MSG);
    x->m = s; x->node = e->node.get();
    op("  = h%d", x->id);
    mon::count("op:message-from-field");
  }
  void op_within() {
    Handle *h = pick_msg();
    const FieldDef *f = any_field(h->node, [](const FieldDef &f) { return f.type == PB_TYPE_MESSAGE; });
    if (!f) return;
    if (f->opaque && !h->dead() && r.one_in(3)) {   // its field, for now
      op("field(h%d, %u)", h->id, f->tag);
      pb_field_t x = pb_field_create(&h->m, f->tag);
      expect("field-invalid", pb_field_valid(&x), "field(%u) invalid", f->tag);
      Target t = target(h->node, *f, nullptr, true);
      check_bytes("within");
      keep_field(x, t.e);
      return;
    }
    op("within(h%d, %u)", h->id, f->tag);
    pb_message_t s = sub_within(&h->m, *f);
    if (h->dead()) { expect("dead-within", !pb_message_valid(&s), "submessage of removed message valid"); unchanged("within"); return; }
    expect("within-invalid", pb_message_valid(&s), "within(%u) invalid", f->tag);
    Target t = target(h->node, *f, nullptr, true);
    check_bytes("within");
    Handle *x = add(H_MSG);
    x->m = s; x->node = t.e->node.get();
    op("  = h%d", x->id);
    mon::count("op:within");
  }
  // A tag path of non-repeated submessages below n, ending in a field.
  bool path(Node *n, std::vector<pb_tag_t> &tags, std::vector<const FieldDef *> &fs, std::function<bool(const FieldDef &)> leaf) {
    int msg = n->msg;
    bool deep = r.one_in(4);
    size_t depth = deep ? 4 + r.below(14) : 1 + r.below(3);
    for (size_t k = 0; k < depth; k++) {
      std::vector<const FieldDef *> c;
      for (auto &f : u.msgs[(size_t)msg].fields)
        if (f.type == PB_TYPE_MESSAGE && !f.opaque && f.label != PB_LABEL_REPEATED) c.push_back(&f);
      if (c.empty()) break;
      fs.push_back(c[r.below(c.size())]);
      if (deep) for (auto *f : c) if (f->tower) fs.back() = f;
      tags.push_back(fs.back()->tag);
      msg = fs.back()->nested;
    }
    if (tags.empty()) return false;
    if (tags.size() > 5) mon::count("long-paths");
    std::vector<const FieldDef *> c;
    for (auto &f : u.msgs[(size_t)msg].fields) if (leaf(f)) c.push_back(&f);
    if (c.empty()) return false;
    fs.push_back(c[r.below(c.size())]);
    tags.push_back(fs.back()->tag);
    return true;
  }
  void op_nested() {
    Handle *h = pick(H_MSG, true);
    if (!h) return;
    static const int RO[] = {0, 1, 3};
    int what = w.readonly ? RO[r.below(3)] : (int)r.below(7);
    std::vector<pb_tag_t> tags; std::vector<const FieldDef *> fs;
    auto leaf = [what](const FieldDef &f) {
      switch (what) {
        case 0: case 2: return f.type != PB_TYPE_MESSAGE && f.label != PB_LABEL_REPEATED;
        case 1: return f.type != PB_TYPE_MESSAGE;
        case 5: return f.type == PB_TYPE_MESSAGE;
        case 6: return f.type != PB_TYPE_MESSAGE;
        default: return true;
      }
    };
    if (!path(h->node, tags, fs, leaf)) return;
    const FieldDef &f = *fs.back();
    std::string ps;
    for (auto t : tags) ps += "." + std::to_string(t);
    // resolve in the model by reads
    Node *n = h->node;
    for (size_t k = 0; k + 1 < fs.size() && n; k++) {
      Elem *e = sub_elem(n, *fs[k]);
      n = e ? e->node.get() : nullptr;
    }
    mon::count("op:nested");
    switch (what) {
      case 0: {
        op("h%d.nested_get(%s)", h->id, ps.c_str());
        Native out;
        pb_error_t e = pb_message_nested_get(&h->m, tags.data(), tags.size(), out.b);
        const Elem *x = n ? readable(*n, f) : nullptr;
        if (x || (n && f.hasdef)) {
          const Val &want = x ? x->v : f.def;
          expect("nested-get", !e && from_native(f.type, out.b) == want, "nested get %s: error %d value %s expected %s", ps.c_str(), e,
            e ? "-" : from_native(f.type, out.b).show().c_str(), want.show().c_str());
        } else expect("nested-get-absent", e == PB_ERROR_ABSENT, "nested get %s: error %d, expected absent", ps.c_str(), e);
        unchanged("nested get"); break;
      }
      case 1: {
        Val v = n && r.flip() && !values(n, f.tag).empty() ? values(n, f.tag)[0] : field_val(r, u, f);
        op("h%d.nested_match(%s, %s)", h->id, ps.c_str(), v.show().c_str());
        Native nv; to_native(v, nv);
        int got = pb_message_nested_match(&h->m, tags.data(), tags.size(), nv.b);
        bool want = false;
        if (n) {
          if (f.label == PB_LABEL_REPEATED) { auto vs = values(n, f.tag); want = std::find(vs.begin(), vs.end(), v) != vs.end(); }
          else { const Elem *x = readable(*n, f); want = x && x->v == v; }
        }
        expect("nested-match", !!got == want, "nested match %s = %d", ps.c_str(), got);
        unchanged("nested match"); break;
      }
      case 2: {
        Val v = value_for(n ? n : h->node, f);
        op("h%d.nested_put(%s, %s)", h->id, ps.c_str(), v.show().c_str());
        Native nv; to_native(v, nv);
        pb_error_t e = pb_message_nested_put(&h->m, tags.data(), tags.size(), nv.b);
        expect("nested-put-error", !e, "nested put %s: error %d", ps.c_str(), e);
        n = h->node;
        for (size_t k = 0; k + 1 < fs.size(); k++) n = target(n, *fs[k], nullptr, true).e->node.get();
        target(n, f, &v, false);
        check_bytes("nested-put"); break;
      }
      case 3: {
        op("h%d.nested_has(%s)", h->id, ps.c_str());
        int got = pb_message_nested_has(&h->m, tags.data(), tags.size());
        bool want = n && (f.label == PB_LABEL_REPEATED ? !!last_of(*n, f.tag) : !!readable(*n, f));
        expect("nested-has", !!got == want, "nested has %s = %d", ps.c_str(), got);
        unchanged("nested has"); break;
      }
      case 4: {
        op("h%d.nested_erase(%s)", h->id, ps.c_str());
        pb_error_t e = pb_message_nested_erase(&h->m, tags.data(), tags.size());
        if (n) {
          expect("nested-erase-error", !e, "nested erase %s: error %d", ps.c_str(), e);
          for (auto &x : n->el)
            if (x->visible() && (x->tag == f.tag || (f.oneof >= 0 && x->f->oneof == f.oneof))) kill(x.get());
        }
        check_bytes("nested-erase"); break;
      }
      case 5: {
        op("h%d.create_nested(%s)", h->id, ps.c_str());
        pb_message_t s = sub_nested(&h->m, tags, f);
        expect("create-nested-invalid", pb_message_valid(&s), "create nested %s invalid", ps.c_str());
        n = h->node;
        for (size_t k = 0; k < fs.size(); k++) n = target(n, *fs[k], nullptr, true).e->node.get();
        check_bytes("create-nested");
        Handle *x = add(H_MSG);
        x->m = s; x->node = n;
        op("  = h%d", x->id); break;
      }
      case 6: {
        op("h%d.field_nested(%s)", h->id, ps.c_str());
        pb_field_t x = pb_field_create_nested(&h->m, tags.data(), tags.size());
        expect("field-nested-invalid", pb_field_valid(&x), "field nested %s invalid", ps.c_str());
        n = h->node;
        for (size_t k = 0; k + 1 < fs.size(); k++) n = target(n, *fs[k], nullptr, true).e->node.get();
        field_created(x, n, f); break;
      }
    }
  }
  Val initial(const FieldDef &f) {
    if (f.hasdef) return f.def;
    Val v; v.type = f.type; return v;
  }
  void field_created(pb_field_t &x, Node *n, const FieldDef &f) {
    Target t;
    if (f.label != PB_LABEL_REPEATED && place(*n, f.tag).match) t = target(n, f, nullptr, false);
    else { Val v = initial(f); t = target(n, f, &v, false); }
    check_bytes("field-create");
    Handle *h = add(H_FIELD);
    h->f = x; h->elem = t.e; h->pv = t.p;
    op("  = h%d", h->id);
  }
  void op_field_new() {
    Handle *h = pick_msg();
    const FieldDef *f = any_field(h->node, [](const FieldDef &f) { return f.type != PB_TYPE_MESSAGE; });
    if (!f) return;
    op("field(h%d, %u)", h->id, f->tag);
    pb_field_t x = pb_field_create(&h->m, f->tag);
    if (h->dead()) { expect("dead-field-create", !pb_field_valid(&x), "field of removed message valid"); unchanged("field create"); return; }
    expect("field-invalid", pb_field_valid(&x), "field(%u) invalid", f->tag);
    expect("field-descriptor", pb_field_descriptor_tag(pb_field_descriptor(&x)) == f->tag, "field descriptor");
    field_created(x, h->node, *f);
    mon::count("op:field-create");
  }
  void op_field_put() {
    Handle *h = pick(H_FIELD, !r.one_in(8));
    if (!h) return;
    std::unique_ptr<Node> fresh;
    Val v;
    if (h->elem->f->opaque) {
      GenParams g = gp; g.max_depth = 2;
      fresh = random_node(r, u, h->elem->f->nested, g, 1);
      v = content(*fresh);
    } else v = value_for(h->elem->parent, *h->elem->f);
    op("h%d.put(%s)", h->id, v.show().c_str());
    Native nv; to_native(v, nv);
    pb_error_t e = pb_field_put(&h->f, nv.b);
    if (h->dead()) { expect("dead-field-put", e == PB_ERROR_INVALID, "put through removed field: %d", e); unchanged("field put"); h->invalid = true; return; }
    expect("field-put-error", !e, "field put error %d", e);
    if (fresh) replace_content(h->elem->node.get(), std::move(fresh));
    else (h->pv ? h->pv->v : h->elem->v) = v;
    check_bytes("field-put");
    verify(*h);
    mon::count("op:field-put");
  }
  void op_field_clear() {
    Handle *h = pick(H_FIELD, !r.one_in(8));
    if (!h) return;
    op("h%d.clear()", h->id);
    pb_error_t e = pb_field_clear(&h->f);
    if (h->dead()) { expect("dead-field-clear", e == PB_ERROR_INVALID, "clear through removed field: %d", e); unchanged("field clear"); h->invalid = true; return; }
    expect("field-clear-error", !e, "field clear error %d", e);
    if (h->pv) kill_val(h->pv); else kill(h->elem);
    check_bytes("field-clear");
    expect("field-clear-valid", !pb_field_valid(&h->f), "field still valid after clear");
    h->invalid = true;
    mon::count("op:field-clear");
  }
  void op_clear_msg() {
    Handle *h = pick(H_MSG);
    if (!h || (h->node == root.get() && !r.one_in(4))) return;
    op("h%d.clear()", h->id);
    pb_error_t e = pb_message_clear(&h->m);
    if (h->dead()) { expect("dead-clear", e == PB_ERROR_INVALID, "clear of removed message: %d", e); unchanged("clear"); h->invalid = true; return; }
    expect("clear-error", !e, "message clear error %d", e);
    if (h->node == root.get()) { for (auto &x : root->el) kill(x.get()); }
    else kill(h->node->owner);
    h->invalid = true;
    expect("clear-valid", !pb_message_valid(&h->m), "message still valid after clear");
    check_bytes("message-clear");
    mon::count("op:message-clear");
  }
  void place_cursor(Handle *x, const FieldDef &f, bool rewound) {
    auto st = stops(x->node, f.tag);
    x->eom = false; x->elem = nullptr; x->pv = nullptr;
    if (f.label != PB_LABEL_REPEATED && !rewound) {
      Elem *e = readable(*x->node, f);
      if (e) x->elem = e; else x->eom = true;
    } else if (st.empty()) x->eom = true;
    else { x->elem = st[0].e; x->pv = st[0].p; }
  }
  void cursor_opened(const pb_cursor_t &c, Node *n, const FieldDef &f) {
    Handle *x = add(H_CURSOR);
    x->c = c; x->node = n; x->tag = f.tag;
    place_cursor(x, f, false);
    op("  = h%d%s", x->id, x->eom ? " (at end)" : "");
    expect("cursor-create", pb_cursor_valid(&x->c) == !x->eom, "cursor over %u valid=%d error=%d", f.tag, pb_cursor_valid(&x->c), pb_cursor_error(&x->c));
    verify(*x);
  }
  void op_cursor_new() {
    Handle *h = pick_msg();
    const FieldDef *f = any_field(h->node, [this](const FieldDef &f) { return f.label == PB_LABEL_REPEATED || r.one_in(3); });
    if (!f) return;
    if (h->dead()) return;
    if (!w.readonly && r.one_in(4)) {
      std::vector<pb_tag_t> tags; std::vector<const FieldDef *> fs;
      if (path(h->node, tags, fs, [](const FieldDef &f) { return f.label == PB_LABEL_REPEATED; })) {
        op("cursor_nested(h%d, ..%u)", h->id, tags.back());
        pb_cursor_t c = pb_cursor_create_nested(&h->m, tags.data(), tags.size());
        Node *n = h->node;
        for (size_t k = 0; k + 1 < fs.size(); k++) n = target(n, *fs[k], nullptr, true).e->node.get();
        check_bytes("cursor-nested");
        cursor_opened(c, n, *fs.back());
        return;
      }
    }
    op("cursor(h%d, %u)", h->id, f->tag);
    pb_cursor_t c = pb_cursor_create(&h->m, f->tag);
    unchanged("cursor create");
    cursor_opened(c, h->node, *f);
    mon::count("op:cursor-create");
  }
  // Next stop after the cursor's position.
  Stop next_stop(const Handle &h) {
    bool past = h.elem == nullptr;
    for (auto &e : h.node->el) {
      if (e.get() == h.elem) {
        past = true;
        if (h.pv) {
          bool pp = false;
          for (auto &p : e->run) {
            if (pp && !p->dead) return {e.get(), p.get()};
            if (p.get() == h.pv) pp = true;
          }
        }
        continue;
      }
      if (!past || e->tag != h.tag || !e->visible()) continue;
      if (e->kind == Elem::PACKED) { for (auto &p : e->run) if (!p->dead) return {e.get(), p.get()}; }
      return {e.get(), nullptr};
    }
    return {nullptr, nullptr};
  }
  void op_cursor_next() {
    Handle *h = pick(H_CURSOR);
    if (!h) return;
    op("h%d.next()", h->id);
    int got = pb_cursor_next(&h->c);
    unchanged("cursor next");
    if (h->dead()) {
      expect("dead-cursor-next", !got, "next on a cursor of a removed message succeeds");
      if (!h->eom) expect("dead-cursor-valid", !pb_cursor_valid(&h->c), "cursor of a removed message still valid after next");
      h->eom = true; h->invalid = true;
      return;
    }
    if (h->eom) { expect("next-past-end", !got, "next past the end succeeds"); return; }
    Stop s = next_stop(*h);
    expect("next", !!got == !!s.e, "next over %u = %d, expected %d (error %d)", h->tag, got, !!s.e, pb_cursor_error(&h->c));
    if (s.e) { h->elem = s.e; h->pv = s.p; }
    else { h->eom = true; expect("next-eom", pb_cursor_error(&h->c) == PB_ERROR_EOM, "error %d at end", pb_cursor_error(&h->c)); }
    verify(*h);
    mon::count("op:cursor-next");
  }
  void op_cursor_seek() {
    Handle *h = pick(H_CURSOR, true);
    if (!h || h->eom) return;
    const FieldDef *f = def(h->node).find(h->tag);
    if (f->type == PB_TYPE_MESSAGE) return;
    auto vs = values(h->node, h->tag);
    Val v = vs.empty() || r.one_in(3) ? field_val(r, u, *f) : vs[r.below(vs.size())];
    op("h%d.seek(%s)", h->id, v.show().c_str());
    Native nv; to_native(v, nv);
    int got = pb_cursor_seek(&h->c, nv.b);
    unchanged("cursor seek");
    bool want = false;
    while (!want) {
      Stop s = next_stop(*h);
      if (!s.e) { h->eom = true; break; }
      h->elem = s.e; h->pv = s.p;
      want = (s.p ? s.p->v : s.e->v) == v;
    }
    expect("seek", !!got == want, "seek(%s) = %d, expected %d", v.show().c_str(), got, want);
    verify(*h);
    mon::count("op:cursor-seek");
  }
  void op_cursor_match() {
    Handle *h = pick(H_CURSOR, true);
    if (!h || h->eom || h->cur_dead() || h->elem->kind == Elem::MSG) return;
    Val cur = h->pv ? h->pv->v : h->elem->v;
    Val v = r.flip() ? cur : field_val(r, u, *h->elem->f);
    if (v.is_str() && r.one_in(3) && !cur.s.empty()) { v = cur; if (r.flip()) v.s.pop_back(); else v.s += 'x'; }
    Native nv; to_native(v, nv);
    int got = pb_cursor_match(&h->c, nv.b);
    expect("cursor-match2", !!got == (v == cur), "h%d.match(%s) = %d, current %s", h->id, v.show().c_str(), got, cur.show().c_str());
    unchanged("cursor match");
    mon::count("op:cursor-match");
  }
  void op_cursor_put() {
    Handle *h = pick(H_CURSOR);
    if (!h) return;
    if (h->eom || h->dead() || h->cur_dead()) {
      const FieldDef *f = u.msgs[(size_t)h->node->msg].find(h->tag);
      if (f->type == PB_TYPE_MESSAGE) return;
      Val v = field_val(r, u, *f); Native nv; to_native(v, nv);
      op("h%d.put (no element)", h->id);
      pb_error_t e = pb_cursor_put(&h->c, nv.b);
      expect("dead-cursor-put", e == PB_ERROR_INVALID, "put through a cursor without element: error %d", e);
      unchanged("cursor put");
      return;
    }
    if (h->elem->kind == Elem::MSG) {
      GenParams g = gp; g.max_depth = 2;
      auto fresh = random_node(r, u, h->elem->f->nested, g, 1);
      std::string b = encode(*fresh);
      op("h%d.put(message %s)", h->id, mon::hex(b).c_str());
      pb_journal_t j2 = make_journal(g_alloc2, b);
      pb_message_t m2 = pb_message_create(u.desc[(size_t)h->elem->f->nested], &j2);
      Val bv = content(*fresh); Native raw; to_native(bv, raw);
      pb_error_t e = pb_cursor_put(&h->c, h->elem->f->opaque ? (const void *)raw.b : &m2);
      expect("cursor-put-sub-error", !e, "cursor put of submessage error %d", e);
      replace_content(h->elem->node.get(), std::move(fresh));
      pb_message_destroy(&m2); pb_journal_destroy(&j2);
      check_bytes("cursor-put-sub");
      return;
    }
    Val v = value_for(h->node, *h->elem->f);
    op("h%d.put(%s)", h->id, v.show().c_str());
    Native nv; to_native(v, nv);
    pb_error_t e = pb_cursor_put(&h->c, nv.b);
    expect("cursor-put-error", !e, "cursor put error %d", e);
    (h->pv ? h->pv->v : h->elem->v) = v;
    check_bytes("cursor-put");
    verify(*h);
    mon::count("op:cursor-put");
  }
  void op_cursor_erase() {
    Handle *h = pick(H_CURSOR);
    if (!h) return;
    op("h%d.erase()", h->id);
    pb_error_t e = pb_cursor_erase(&h->c);
    if (h->eom || h->dead() || h->cur_dead()) {
      expect("dead-cursor-erase", e == PB_ERROR_INVALID, "erase through a cursor without element: error %d", e);
      unchanged("cursor erase");
      return;
    }
    expect("cursor-erase-error", !e, "cursor erase error %d", e);
    if (h->pv) kill_val(h->pv); else kill(h->elem);
    check_bytes("cursor-erase");
    mon::count("op:cursor-erase");
  }
  void op_cursor_rewind() {
    Handle *h = pick(H_CURSOR);
    if (!h) return;
    op("h%d.rewind()", h->id);
    int got = pb_cursor_rewind(&h->c);
    unchanged("cursor rewind");
    if (h->dead()) { expect("dead-rewind", !got, "rewind of a cursor of a removed message succeeds"); h->invalid = true; return; }
    const FieldDef *f = def(h->node).find(h->tag);
    place_cursor(h, *f, true);
    expect("rewind", !!got == !h->eom, "rewind over %u = %d, expected %d", h->tag, got, !h->eom);
    verify(*h);
    mon::count("op:cursor-rewind");
  }
  void op_msg_from_cursor() {
    Handle *h = pick(H_CURSOR);
    if (!h) return;
    const FieldDef *f = u.msgs[(size_t)h->node->msg].find(h->tag);
    bool ok = !h->dead() && !h->eom && !h->cur_dead();
    if (f->opaque && ok && r.flip()) {
      op("field(h%d)", h->id);
      pb_field_t x = pb_field_create_from_cursor(&h->c);
      unchanged("field from cursor");
      expect("field-from-cursor", pb_field_valid(&x), "field from cursor invalid");
      keep_field(x, h->elem);
    } else if (f->type == PB_TYPE_MESSAGE) {
      op("message(h%d)", h->id);
      pb_message_t s = sub_from(&h->c, *f);
      unchanged("message from cursor");
      expect("message-from-cursor", pb_message_valid(&s) == ok, "message from cursor valid=%d expected %d", pb_message_valid(&s), ok);
      if (!ok) { pb_message_destroy(&s); return; }
      Node *n = h->elem->node.get();
      Handle *x = add(H_MSG);
      x->m = s; x->node = n;
      op("  = h%d", x->id);
      mon::count("op:message-from-cursor");
    } else {
      op("field(h%d)", h->id);
      pb_field_t s = pb_field_create_from_cursor(&h->c);
      unchanged("field from cursor");
      expect("field-from-cursor", pb_field_valid(&s) == ok, "field from cursor valid=%d expected %d", pb_field_valid(&s), ok);
      if (!ok) { pb_field_destroy(&s); return; }
      Elem *e = h->elem; PVal *p = h->pv;
      Handle *x = add(H_FIELD);
      x->f = s; x->elem = e; x->pv = p;
      op("  = h%d", x->id);
      mon::count("op:field-from-cursor");
    }
  }
  void op_oneof() {
    Handle *h = pick(H_MSG, true);
    if (!h || !def(h->node).oneofs) return;
    Node *n = h->node;
    int o = (int)r.below((uint64_t)def(n).oneofs);
    switch (r.below(4)) {
      case 0: {
        op("oneof(h%d, %d)", h->id, o);
        pb_oneof_t x = pb_oneof_create(u.odesc[(size_t)n->msg][(size_t)o], &h->m);
        expect("oneof-create", pb_oneof_valid(&x), "oneof invalid: %d", pb_oneof_error(&x));
        Handle *y = add(H_ONEOF);
        y->o = x; y->node = n; y->oneof = o;
        op("  = h%d", y->id);
        if (r.flip()) verify(*y);   // the case query moves the oneof, so some stay as created
        break;
      }
      case 1: {
        Handle *y = pick(H_ONEOF);
        if (!y || w.readonly) return;
        op("h%d.oneof_clear()", y->id);
        pb_error_t e = pb_oneof_clear(&y->o);
        if (y->dead()) { unchanged("oneof clear"); return; }
        expect("oneof-clear-error", !e, "oneof clear error %d", e);
        for (auto &x : y->node->el)
          if (x->visible() && x->f->oneof == y->oneof) kill(x.get());
        check_bytes("oneof-clear");
        verify(*y);
        mon::count("op:oneof-clear"); break;
      }
      default: check_case(&h->m, n, o, "oneof");
    }
  }
  void op_read() {
    Handle *h = pick(H_MSG);
    if (h) { op("check h%d", h->id); verify(*h); unchanged("reads"); }
  }
  void op_audit() {
    Handle *h = pick(H_MSG, true);
    if (!h) return;
    op("audit h%d", h->id);
    audit(&h->m, h->node, 0, "audit");
  }

  void step() {
    steps++;
    struct { int w; void (Session::*f)(); } T[] = {
      {w.put, &Session::op_put}, {w.put_sub, &Session::op_put_sub}, {w.erase, &Session::op_erase},
      {w.within, &Session::op_within}, {w.nested, &Session::op_nested}, {w.clear_msg, &Session::op_clear_msg},
      {w.field_new, &Session::op_field_new}, {w.field_put, &Session::op_field_put}, {w.field_clear, &Session::op_field_clear},
      {w.cursor_new, &Session::op_cursor_new}, {w.cursor_next, &Session::op_cursor_next}, {w.cursor_seek, &Session::op_cursor_seek},
      {w.cursor_match, &Session::op_cursor_match}, {w.cursor_put, &Session::op_cursor_put}, {w.cursor_erase, &Session::op_cursor_erase},
      {w.cursor_rewind, &Session::op_cursor_rewind}, {w.msg_from_cursor + w.field_from_cursor, &Session::op_msg_from_cursor},
      {w.oneof, &Session::op_oneof}, {w.msg_from_field, &Session::op_msg_from_field}, {w.read, &Session::op_read}, {w.audit, &Session::op_audit}};
    int total = 0;
    for (auto &t : T) total += t.w;
    int k = (int)r.below((uint64_t)total);
    for (auto &t : T) { if (k < t.w) { (this->*t.f)(); break; } k -= t.w; }
    mon::count("steps");
    // Re-check a random subset of the live handles; the others stay stale.
    if (w.stale) {
      for (size_t i = 0; i < hs.size(); i++)
        if (r.one_in((uint64_t)w.stale)) { op("verify h%d", hs[i]->id); verify(*hs[i]); }
      unchanged("handle checks");
    }
    if (r.below(100) < (uint64_t)w.drop && hs.size() > 1) {
      Handle *h = hs[r.below(hs.size())].get();
      op("destroy h%d", h->id); drop(h); unchanged("destroy");
    }
  }
  void run(int n) {
    for (int i = 0; i < n; i++) step();
    for (auto &h : hs) { op("final verify h%d", h->id); verify(*h); }
    Handle *h = add_root();
    op("final audit");
    audit(&h->m, root.get(), 0, "final audit");
    check_bytes("end");
#ifdef MON_PBREF
    if (w.reference && r.one_in((uint64_t)w.reference)) {
      pbref::Schema ref(u);
      ref.check(*root, bytes());
    }
#endif
    mon::count("sessions");
    mon::count("edits", (uint64_t)edits);
  }
};

}  // namespace session
#endif
