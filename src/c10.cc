// C10: several live handles on one buffer stay consistent under each other's edits.
#include "session.hh"
using namespace session;

static void play(Rng &r, uint64_t id, Params p, GenParams g, const Weights &w, int steps) {
  tower(r, p, g);
  Universe u;
  random_universe(r, u, p);
  Session s(r, u, g, w);
  s.run(steps);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

static void coexist(Rng &r, uint64_t id) {
  Params p; p.messages = 3 + (int)r.below(3);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.big = r.one_in(10); g.empty_runs = r.one_in(4);
  Weights w;
  w.max_handles = 4 + (int)r.below(14);
  w.stale = 2 + (int)r.below(6);
  play(r, id, p, g, w, 20 + (int)r.below(80));
}
// Handles are hardly ever checked between the edits: long replays.
static void stale(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(3); p.max_fields = 6;
  GenParams g; g.max_depth = 1 + (int)r.below(3); g.big = r.one_in(10); g.empty_runs = r.one_in(4);
  Weights w;
  w.max_handles = 14; w.stale = 40; w.read = 0; w.audit = 0; w.drop = 0; w.cursor_match = 0;
  w.cursor_next = 3; w.boundary = 5;
  play(r, id, p, g, w, 30 + (int)r.below(90));
}
// Hundreds of edits between two uses of a handle.
static void longer(Rng &r, uint64_t id) {
  Params p; p.messages = 2 + (int)r.below(2); p.max_fields = 5; p.wide = 0;
  GenParams g; g.max_depth = 1 + (int)r.below(2); g.crowd = 0;
  Weights w;
  w.max_handles = 10; w.sleepers = 4; w.stale = 300 + (int)r.below(2000); w.read = 0; w.audit = 0; w.drop = 1; w.cursor_next = 3; w.cursor_match = 0;
  w.erase = 10; w.field_clear = 6; w.cursor_erase = 8; w.put_sub = 2; w.boundary = 3;
  play(r, id, p, g, w, 1000 + (int)r.below(3000));
}

// An allocator whose blocks have room to grow: makes very long histories cheap.
struct Roomy {
  pb_allocator_t a;
  Roomy() {
    a.proc.allocate = [](void *, size_t n) { return get(n); };
    a.proc.resize = [](void *, void *b, size_t n) -> void * {
      if (!b) return get(n);
      size_t *h = (size_t *)b - 2;
      if (n <= h[0]) return b;
      void *x = get(2 * n);
      memcpy(x, b, h[0]); free(h);
      return x;
    };
    a.proc.free = [](void *, void *b) { free((size_t *)b - 2); };
    a.data = this;
  }
  static void *get(size_t n) { size_t *h = (size_t *)malloc(n + 16); h[0] = n; return h + 2; }
};

// Tens of thousands of edits (each recorded by the journal) between two uses of a
// handle: a fixed schema, the expected content kept as plain variables.
static void history(Rng &r, uint64_t) {
  Universe u;
  u.enums.push_back({{{0, "Z"}}});
  auto field = [](uint32_t tag, pb_type_t t, pb_label_t l, const char *name) {
    FieldDef f; f.tag = tag; f.type = t; f.label = l; f.name = name; return f;
  };
  MsgDef m0, m1;
  m0.fields = {field(1, PB_TYPE_STRING, PB_LABEL_OPTIONAL, "a"), field(2, PB_TYPE_MESSAGE, PB_LABEL_OPTIONAL, "b"),
    field(3, PB_TYPE_UINT64, PB_LABEL_REPEATED, "c"), field(4, PB_TYPE_STRING, PB_LABEL_REPEATED, "d"), field(5, PB_TYPE_INT32, PB_LABEL_OPTIONAL, "e")};
  m0.fields[1].nested = 1; m0.fields[2].packed = true;
  m1.fields = {field(1, PB_TYPE_STRING, PB_LABEL_OPTIONAL, "x"), field(2, PB_TYPE_UINT64, PB_LABEL_OPTIONAL, "y")};
  u.msgs = {m0, m1};
  u.build();
  std::string a = "a", x = "xx";
  uint64_t y = 7; int32_t e = 5;
  std::vector<uint64_t> c; std::vector<std::string> d;
  for (int i = 0; i < 6; i++) { c.push_back(r.below(300)); d.push_back(std::string(1 + r.below(5), (char)('p' + i))); }
  auto lp = [](std::string &o, int tag, const std::string &s) { put_varint(o, (uint64_t)tag << 3 | 2); put_varint(o, s.size()); o += s; };
  auto want = [&] {
    std::string o, b, p;
    lp(o, 1, a);
    lp(b, 1, x); put_varint(b, 2 << 3); put_varint(b, y);
    lp(o, 2, b);
    for (auto v : c) put_varint(p, v);
    lp(o, 3, p);
    for (auto &v : d) lp(o, 4, v);
    put_varint(o, 5 << 3); put_varint(o, (uint64_t)(int64_t)e);
    return o;
  };
  auto same = [&](pb_journal_t &j, const char *when) {
    std::string got((const char *)pb_journal_data(&j), pb_journal_size(&j));
    if (got != want()) violate("history-bytes", "%s:\n got %s\nwant %s", when, mon::hex(got).c_str(), mon::hex(want()).c_str());
    mon::count("byte-comparisons");
  };
  Roomy roomy;
  pb_journal_t j = pb_journal_create_with_allocator(&roomy.a, (const uint8_t *)want().data(), want().size());
  pb_message_t root = pb_message_create(u.desc[0], &j);
  // The sleeping handles.
  pb_message_t rs = pb_message_create(u.desc[0], &j), bs = pb_message_create_within(&root, 2);
  pb_field_t as = pb_field_create(&root, 1), ys = pb_field_create(&bs, 2), es = pb_field_create(&root, 5);
  auto cursor_at = [&](pb_tag_t tag, size_t k) {
    pb_cursor_t x = pb_cursor_create(&root, tag);
    while (k-- && pb_cursor_next(&x)) {}
    if (!pb_cursor_valid(&x)) violate("history-cursor", "cursor over %u ends early", tag);
    return x;
  };
  size_t kc = r.below(c.size()), kd = r.below(d.size());
  pb_cursor_t cs = cursor_at(3, kc), ds = cursor_at(4, kd), dead = cursor_at(4, 5);
  pb_field_t ds_f = pb_field_create_from_cursor(&ds), dead_f = pb_field_create_from_cursor(&dead);
  static const int LONG[] = {300, 3000, 20000, 70000};
  int n = LONG[r.below(4)] + (int)r.below(40), mode = (int)r.below(4);
  op("history of %d edits, mode %d, cursors at c[%zu] d[%zu]", n, mode, kc, kd);
  pb_tag_t path[] = {2, 1};
  auto str = [](std::string &s) { return pb_string_init((uint8_t *)&s[0], s.size()); };
  auto ok = [&](pb_error_t err, const char *what) { if (err) violate("history-error", "%s: error %d", what, err); };
  for (int i = 0; i < n; i++) {
    switch (mode ? mode - 1 : (int)r.below(3)) {
      case 0: { a.assign(r.below(20), 'A'); pb_string_t s = str(a); ok(pb_message_put(&root, 1, &s), "put"); break; }
      case 1: { x.assign(r.below(20), 'X'); pb_string_t s = str(x); ok(pb_message_nested_put(&root, path, 2, &s), "nested put"); break; }
      default:
        e = (int32_t)(r.below(2) ? r.below(300) : r.next());
        ok(pb_message_put(&root, 5, &e), "put");
    }
    mon::count("edits");
    if (r.one_in(n < 1000 ? 20 : 2000)) same(j, "during a history");
    if (i == n / 2) {
      pb_cursor_t k = cursor_at(4, 5);
      ok(pb_cursor_erase(&k), "cursor erase");
      pb_cursor_destroy(&k);
      d.pop_back();
    }
  }
  same(j, "after a history");
  if (n >= 70000) mon::count("histories-of-70000-edits");
  // What they read, in any order, and what they write.
  std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  auto eq = [&](pb_error_t err, bool good, const char *who) {
    if (err || !good) violate("history-read", "%s after %d edits: error %d%s", who, n, err, good ? "" : ", wrong value");
    mon::count("live-handle-checks");
  };
  bool write = r.flip();
  for (int k : order) {
    pb_string_t s{}; uint64_t v = 0; int32_t w = 0; pb_error_t err;
    switch (k) {
      case 0:
        err = pb_message_get(&rs, 5, &w); eq(err, w == e, "root message");
        if (write) { e = 77; ok(pb_message_put(&rs, 5, &e), "put through the old root"); }
        break;
      case 1:
        err = pb_message_get(&bs, 1, &s); eq(err, !err && std::string((char *)s.data, s.size) == x, "submessage");
        if (write) { x = "new content of x"; s = str(x); ok(pb_message_put(&bs, 1, &s), "put through the old submessage"); }
        break;
      case 2:
        err = pb_field_get(&as, &s); eq(err, !err && std::string((char *)s.data, s.size) == a, "field a");
        if (write) { a = "new content of a"; s = str(a); ok(pb_field_put(&as, &s), "put through the old field a"); }
        break;
      case 3:
        err = pb_field_get(&ys, &v); eq(err, v == y, "field b.y");
        if (write) { y = 1ull << 40; ok(pb_field_put(&ys, &y), "put through the old field b.y"); }
        break;
      case 4:
        err = pb_field_get(&es, &w); eq(err, w == e, "field e");
        if (write) { e = -1; ok(pb_field_put(&es, &e), "put through the old field e"); }
        break;
      case 5: {
        err = pb_cursor_get(&cs, &v); eq(err, v == c[kc], "cursor over c");
        if (write) { c[kc] = 1ull << 35; ok(pb_cursor_put(&cs, &c[kc]), "put through the old cursor"); }
        size_t left = c.size() - kc - 1;
        for (; pb_cursor_next(&cs); left--) { err = pb_cursor_get(&cs, &v); eq(err, left && v == c[c.size() - left], "advanced cursor over c"); }
        if (left) violate("history-cursor", "cursor over c misses %zu values", left);
        break;
      }
      default:
        if (kd < d.size()) {
          err = pb_cursor_get(&ds, &s); eq(err, !err && std::string((char *)s.data, s.size) == d[kd], "cursor over d");
          err = pb_field_get(&ds_f, &s); eq(err, !err && std::string((char *)s.data, s.size) == d[kd], "field d");
          if (write) { d[kd] = "new content of d"; s = str(d[kd]); ok(pb_field_put(&ds_f, &s), "put through the old field d"); }
        }
        if (!pb_field_get(&dead_f, &s)) violate("history-dead", "a field removed long ago can be read");
        if (!pb_cursor_get(&dead, &s)) violate("history-dead", "a cursor reads a field removed long ago");
        mon::count("dead-handle-checks");
    }
    same(j, "after using an old handle");
  }
  mon::distinct(mon::fnv(want(), (uint64_t)n));
  pb_cursor_destroy(&cs); pb_cursor_destroy(&ds); pb_cursor_destroy(&dead);
  pb_field_destroy(&as); pb_field_destroy(&ys); pb_field_destroy(&es); pb_field_destroy(&ds_f); pb_field_destroy(&dead_f);
  pb_message_destroy(&rs); pb_message_destroy(&bs); pb_message_destroy(&root);
  pb_journal_destroy(&j);
}

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"coexist", coexist, 4000, 200000}, {"stale", stale, 3000, 150000},
    {"longer", longer, 80, 3000}, {"history", history, 60, 1500}});
}
