// C24: dumps show exactly the bytes of what they are called for, and change nothing.
#include "session.hh"
using namespace session;

namespace {

// What a dump prints goes to stderr: replace it meanwhile.
template <class F> std::string capture(F f) {
  char *p = nullptr; size_t n = 0;
  FILE *keep = stderr;
  stderr = open_memstream(&p, &n);
  f();
  fclose(stderr);
  stderr = keep;
  std::string s(p, n);
  free(p);
  mon::count("dumps");
  return s;
}

struct Parsed { size_t start = 0, end = 0, length = 0; std::string bytes; };

bool header(const std::string &out, const char *name, size_t *v, size_t *after) {
  size_t at = out.find(name);
  if (at == std::string::npos) return false;
  size_t b = at;
  while (b && out[b - 1] == ' ') b--;
  size_t e = b;
  while (b && isdigit((unsigned char)out[b - 1])) b--;
  if (b == e) return false;
  *v = strtoull(out.substr(b, e - b).c_str(), nullptr, 10);
  *after = std::max(*after, at);
  return true;
}

// Compare a dump with the bytes [start, start + want.size()) it has to show.
void verify(const std::string &out, size_t start, const std::string &want, const char *what) {
  auto bad = [&](const char *key, const char *why) {
    violate((std::string(key) + ":" + what).c_str(), "%s\nwant offset %zu bytes %s\noutput:\n%s", why, start, mon::hex(want).c_str(), out.c_str());
  };
  size_t s = 0, e = 0, l = 0, at = 0;
  if (!header(out, "offset start", &s, &at) || !header(out, "offset end", &e, &at) || !header(out, "length", &l, &at))
    { bad("dump-header", "no header"); return; }
  if (s != start || e != start + want.size() || l != want.size()) { bad("dump-header", "wrong header"); return; }
  std::vector<std::string> lines;
  for (size_t p = out.find('\n', at); p != std::string::npos;) {
    size_t q = out.find('\n', p + 1);
    std::string x = out.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    if (x.find_first_not_of(" -") != std::string::npos) lines.push_back(x);
    else if (x.find('-') == std::string::npos && x.size() > 6) lines.push_back(x);
    p = q;
  }
  if (lines.size() != (want.size() + 9) / 10) { bad("dump-rows", "wrong number of rows"); return; }
  for (size_t k = 0; k < lines.size(); k++) {
    size_t n = std::min<size_t>(10, want.size() - 10 * k);
    const char *p = lines[k].c_str(); char *q;
    std::string chars;
    for (size_t i = 0; i <= n; i++) {
      unsigned long long v = strtoull(p, &q, 10);
      if (q == p) { bad("dump-row", "too few numbers"); return; }
      unsigned long long w = i ? (uint8_t)want[10 * k + i - 1] : 10 * k;
      if (v != w) { bad("dump-row", i ? "wrong value" : "wrong offset"); return; }
      p = q;
      if (i) { chars += w > 31 && w < 127 ? (char)w : '.'; chars += ' '; }
    }
    auto trim = [](std::string x) { while (!x.empty() && x.back() == ' ') x.pop_back(); return x; };
    std::string rest = trim(p), tail = trim(chars);
    if (rest.size() < tail.size() || rest.compare(rest.size() - tail.size(), tail.size(), tail) ||
        (rest.size() > tail.size() && !tail.empty() && rest.substr(0, rest.size() - tail.size()).find_first_not_of(' ') != std::string::npos))
      { bad("dump-chars", "wrong characters"); return; }
  }
  mon::count("dumps-compared"); mon::count("bytes-compared", want.size());
  mon::distinct(mon::fnv(out));
}

std::string random_bytes(Rng &r) {
  std::string s((size_t)(r.one_in(20) ? r.below(20000) : r.one_in(4) ? r.below(300) : r.below(45)), '\0');
  int mode = (int)r.below(3);
  for (auto &c : s) c = mode == 0 ? (char)r.next() : mode == 1 ? (char)(32 + r.below(95)) : "\x1f\x20\x7e\x7f 09.-"[r.below(9)];
  return s;
}

void buffers(Rng &r, uint64_t) {
  std::string m = random_bytes(r);
  if (r.flip() && !m.empty()) {
    pb_buffer_t b = r.flip() ? pb_buffer_create((const uint8_t *)m.data(), m.size())
      : pb_buffer_create_zero_copy((uint8_t *)&m[0], m.size());
    op("buffer %s", mon::hex(m).c_str());
    verify(capture([&] { pb_buffer_dump(&b); }), 0, m, "buffer");
    Session::expect("dump-modified", pb_buffer_size(&b) == m.size() && !memcmp(pb_buffer_data(&b), m.data(), m.size()), "a dump changed the buffer");
    pb_buffer_destroy(&b);
  } else {
    pb_journal_t j = make_journal(nullptr, m);
    op("journal %s", mon::hex(m).c_str());
    verify(capture([&] { pb_journal_dump(&j); }), 0, m, "journal");
    Session::expect("dump-modified", std::string((const char *)pb_journal_data(&j), pb_journal_size(&j)) == m, "a dump changed the journal");
    pb_journal_destroy(&j);
  }
  mon::count("cases");
}

size_t offset_of(const Elem *e);
size_t offset_of(const Node *n) {     // of the content of a message
  if (!n->owner) return 0;
  return offset_of(n->owner);
}
size_t varint_size(uint64_t v) { std::string s; put_varint(s, v); return s.size(); }
size_t offset_of(const Elem *e) {     // of the content of an element
  size_t o = offset_of(e->parent);
  for (auto &x : e->parent->el) {
    if (x.get() == e) break;
    if (!x->dead) { std::string s; encode(*x, s); o += s.size(); }
  }
  o += varint_size(((uint64_t)e->tag << 3) | (uint64_t)wire(*e));
  size_t b = body(*e).size();
  switch (e->kind) {
    case Elem::SCALAR: return o;
    case Elem::STR: return o + b - e->v.s.size();
    case Elem::MSG: return o + b - encode(*e->node).size();
    default: {
      size_t s = 0;
      for (auto &p : e->run) if (!p->dead) s += payload(p->v).size();
      return o + b - s;
    }
  }
}

void sessions(Rng &r, uint64_t id) {
  Universe u;
  Params p; p.messages = 3; p.max_fields = 7;
  random_universe(r, u, p);
  GenParams g; g.max_depth = 3;
  Weights w;
  w.field_new = 10; w.within = 10; w.msg_from_cursor = 6; w.field_from_cursor = 8; w.max_handles = 12; w.stale = 8;
  Session s(r, u, g, w);
  int steps = 10 + (int)r.below(25);
  while (steps--) {
    s.step();
    for (int k = 0; k < 2; k++) {
      Handle *h = s.pick(r.flip() ? H_MSG : H_FIELD);
      if (!h) continue;
      op("dump h%d", h->id);
      bool msg = h->kind == H_MSG;
      if (!(msg ? pb_message_valid(&h->m) : pb_field_valid(&h->f))) continue;   // known to be invalid
      std::string out = capture([&] { msg ? pb_message_dump(&h->m) : pb_field_dump(&h->f); });
      if (h->dead()) {
        Session::expect("dump-dead", out.find("offset") == std::string::npos, "a removed %s is dumped:\n%s", msg ? "message" : "field", out.c_str());
        mon::count("dead-dumps");
      } else if (msg) verify(out, offset_of(h->node), encode(*h->node), "message");
      else {
        const Val &v = h->pv ? h->pv->v : h->elem->v;
        std::string b = v.is_str() ? v.s : payload(v);
        size_t o = offset_of(h->elem);
        if (h->pv) for (auto &q : h->elem->run) { if (q.get() == h->pv) break; if (!q->dead) o += payload(q->v).size(); }
        verify(out, o, b, "field");
      }
      s.unchanged("dump");
    }
  }
  s.run(1);
  if (id < 2) mon::sample(u.show() + " -> " + mon::hex(s.bytes()));
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {{"buffers", buffers, 12000, 200000}, {"sessions", sessions, 3000, 60000}});
}
