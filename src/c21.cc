// C21: objects used by one thread each, sharing descriptors and read-only bytes only.
//
// Every case runs in a process of its own, so that anything the library initialises
// upon first use is initialised while other threads run.
#include "model.hh"
#include <atomic>
#include <sched.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>
#include <sys/prctl.h>
#include <unistd.h>
extern "C" {
#include "core/decoder.h"
#include "core/encoder.h"
#include "message/cursor.h"
#include "message/field.h"
#include "message/journal.h"
#include "message/message.h"
#include "message/oneof.h"
#include "util/validator.h"
#include <protobluff/util/chunk_allocator.h>
#include <protobluff/util/descriptor.h>
}
using namespace model;
using mon::op; using mon::violate;

namespace {

struct Ticket { uint32_t begin, end; uint8_t op; };
const char *OPS[] = {"decode", "validate", "read", "edit", "encode", "lookup", "nested", "cursor", "names", "oneof"};
enum { N_OPS = 10 };

// What the threads share: descriptors and bytes in memory that cannot be written.
struct Shared {
  Universe *u;
  std::vector<std::string> in;
  std::vector<const uint8_t *> at;
  std::vector<pb_buffer_t> buf;
  std::atomic<uint32_t> ticket{0}, ready{0}, go{0};
  void map() {
    for (auto &b : in) {
      size_t n = (b.size() + 4096) & ~(size_t)4095;
      uint8_t *p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) mon::harness_bug("mmap");
      memcpy(p, b.data(), b.size());
      mprotect(p, n, PROT_READ);
      at.push_back(p);
    }
  }
};

// The work of one thread: a sequence of operations on objects of its own. Touches no
// state of the monitor.
struct Work {
  Shared &s; const Universe &u; Rng r, sched; bool concurrent;
  std::vector<uint64_t> log;         // digest of the results of each operation
  std::vector<Ticket> tickets;
  std::string bad;
  uint64_t h = 0;
  pb_allocator_t own, chunk; int which; uint64_t blocks = 0;
  pb_journal_t j; pb_message_t root;

  Work(Shared &s_, uint64_t seed, uint64_t sseed, bool c) : s(s_), u(*s_.u), r(seed), sched(sseed), concurrent(c) {}
  void mix(uint64_t x) { h = (h ^ x) * 1099511628211ULL + 7; }
  void mix(const void *p, size_t n) { mix(n); h = mon::fnv(p, n, h); }
  void mix(const FieldDef &f, pb_error_t e, const Native &n) {
    mix((uint64_t)e);
    if (e) return;
    if (wiretype(f.type) == WT_LEN) { pb_string_t x; memcpy(&x, n.b, sizeof x); mix(x.data, x.size); }
    else mix(n.b, native_size(f.type));
  }
  void disturb() {
    if (!concurrent) return;
    switch (sched.below(12)) {
      case 0: sched_yield(); break;
      case 1: for (volatile int i = (int)sched.below(400); i > 0; i = i - 1); break;
      default: break;
    }
  }
  // The allocator of the thread gives the others a chance in the middle of operations.
  void *allocate(size_t n) { disturb(); blocks++; return malloc(n); }
  void *resize(void *b, size_t n) { disturb(); if (!b) blocks++; return realloc(b, n); }
  void release(void *b) { disturb(); blocks--; free(b); }

  static pb_error_t on_value(const pb_field_descriptor_t *d, const void *v, void *user) {
    auto *p = (std::pair<Work *, std::pair<int, int>> *)user;
    Work &w = *p->first; int msg = p->second.first, depth = p->second.second;
    w.disturb();
    w.mix(pb_field_descriptor_tag(d));
    const FieldDef *f = w.u.msgs[(size_t)msg].find(pb_field_descriptor_tag(d));
    if (!f) { w.bad = "a value of an undeclared field"; return PB_ERROR_INVALID; }
    if (f->type == PB_TYPE_MESSAGE) {
      if (depth > 20) return PB_ERROR_NONE;
      std::pair<Work *, std::pair<int, int>> q{&w, {f->nested, depth + 1}};
      return pb_decoder_decode((const pb_decoder_t *)v, on_value, &q);
    }
    Native n;
    memcpy(n.b, v, native_size(f->type));
    w.mix(*f, PB_ERROR_NONE, n);
    return PB_ERROR_NONE;
  }
  void read(pb_message_t *m, int msg, int depth) {
    for (auto &f : u.msgs[(size_t)msg].fields) {
      disturb();
      mix((uint64_t)pb_message_has(m, f.tag));
      Native n;
      if (f.label != PB_LABEL_REPEATED && f.type != PB_TYPE_MESSAGE) { pb_error_t e = pb_message_get(m, f.tag, n.b); mix(f, e, n); }
      else {
        pb_cursor_t c = pb_cursor_create(m, f.tag);
        int k = 0;
        if (pb_cursor_valid(&c)) do {
          if (f.type == PB_TYPE_MESSAGE) {
            pb_message_t sub = pb_message_create_from_cursor(&c);
            if (pb_message_valid(&sub) && depth < 4) read(&sub, f.nested, depth + 1);
            pb_message_destroy(&sub);
          } else { pb_error_t e = pb_cursor_get(&c, n.b); mix(f, e, n); }
        } while (k++ < 40 && pb_cursor_next(&c));
        pb_cursor_destroy(&c);
      }
    }
    auto &os = u.odesc[(size_t)msg];
    for (auto *o : os) {
      pb_oneof_t x = pb_oneof_create(o, m);
      mix(pb_oneof_case(&x));
      pb_oneof_destroy(&x);
    }
  }
  void begin() {
    own.proc.allocate = [](void *d, size_t n) { return ((Work *)d)->allocate(n); };
    own.proc.resize = [](void *d, void *b, size_t n) { return ((Work *)d)->resize(b, n); };
    own.proc.free = [](void *d, void *b) { ((Work *)d)->release(b); };
    own.data = this;
    which = (int)r.below(3);
    chunk = pb_chunk_allocator_create_with_capacity(1 + r.below(600));
    open();
  }
  void open() {
    size_t k = r.below(s.in.size());
    const std::string &b = s.in[k];
    pb_allocator_t *a = which == 0 ? nullptr : which == 1 ? &own : &chunk;
    if (b.empty()) j = a ? pb_journal_create_empty_with_allocator(a) : pb_journal_create_empty();
    else j = a ? pb_journal_create_with_allocator(a, s.at[k], b.size()) : pb_journal_create(s.at[k], b.size());
    root = pb_message_create(u.desc[0], &j);
  }
  void end() {
    pb_message_destroy(&root); pb_journal_destroy(&j);
    pb_chunk_allocator_destroy(&chunk);
    if (blocks) bad = "blocks of this thread's allocator were not released";
  }
  const FieldDef *field(int msg, bool message) {
    std::vector<const FieldDef *> c;
    for (auto &f : u.msgs[(size_t)msg].fields) if ((f.type == PB_TYPE_MESSAGE) == message) c.push_back(&f);
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  void step() {
    int what = (int)r.below(N_OPS);
    Ticket t; t.op = (uint8_t)what;
    t.begin = s.ticket.fetch_add(1, std::memory_order_relaxed);
    h = 99 + (uint64_t)what;
    disturb();
    perform(what);
    disturb();
    t.end = s.ticket.fetch_add(1, std::memory_order_relaxed);
    tickets.push_back(t);
    mix(pb_journal_data(&j), pb_journal_size(&j));
    log.push_back(h);
  }
  void perform(int what) {
    size_t k = r.below(s.in.size());
    Native n; Val v;
    auto value = [&](const FieldDef &f) { v = field_val(r, u, f); to_native(v, n); };
    switch (what) {
      case 0: {
        pb_decoder_t d = pb_decoder_create(u.desc[0], &s.buf[k]);
        std::pair<Work *, std::pair<int, int>> q{this, {0, 0}};
        mix((uint64_t)pb_decoder_decode(&d, on_value, &q));
        pb_decoder_destroy(&d); break; }
      case 1: {
        pb_validator_t x = pb_validator_create(u.desc[0]);
        mix((uint64_t)pb_validator_check(&x, &s.buf[k]));
        pb_validator_destroy(&x); break; }
      case 2: {
        if (s.in[k].empty()) break;
        pb_journal_t z = pb_journal_create_zero_copy((uint8_t *)(uintptr_t)s.at[k], s.in[k].size());
        pb_message_t m = pb_message_create(u.desc[0], &z);
        read(&m, 0, 0);
        pb_message_destroy(&m); pb_journal_destroy(&z); break; }
      case 3: {
        for (int i = 0; i < 3; i++) {
          const FieldDef *f = field(0, false);
          if (!f) break;
          value(*f);
          if (r.one_in(4)) mix((uint64_t)pb_message_erase(&root, f->tag));
          else if (r.one_in(4)) { pb_field_t x = pb_field_create(&root, f->tag); mix((uint64_t)pb_field_put(&x, n.b)); pb_field_destroy(&x); }
          else mix((uint64_t)pb_message_put(&root, f->tag, n.b));
        }
        read(&root, 0, 2); break; }
      case 4: {
        pb_encoder_t e = which == 0 ? pb_encoder_create(u.desc[0]) : pb_encoder_create_with_allocator(which == 1 ? &own : &chunk, u.desc[0]);
        for (int i = 0; i < 6; i++) {
          const FieldDef *f = field(0, r.one_in(3));
          if (!f) continue;
          if (f->type == PB_TYPE_MESSAGE) {
            pb_encoder_t e2 = pb_encoder_create(u.desc[(size_t)f->nested]);
            if (const FieldDef *g = field(f->nested, false)) { value(*g); mix((uint64_t)pb_encoder_encode(&e2, g->tag, n.b, 1)); }
            mix((uint64_t)pb_encoder_encode(&e, f->tag, &e2, 1));
            pb_encoder_destroy(&e2);
          } else if (f->label == PB_LABEL_REPEATED && native_size(f->type) == 4) {
            uint32_t vs[5];
            for (auto &x : vs) x = (uint32_t)field_val(r, u, *f).u;
            mix((uint64_t)pb_encoder_encode(&e, f->tag, vs, 1 + r.below(5)));
          } else { value(*f); mix((uint64_t)pb_encoder_encode(&e, f->tag, n.b, 1)); }
        }
        mix(pb_buffer_data(pb_encoder_buffer(&e)), pb_buffer_size(pb_encoder_buffer(&e)));
        pb_encoder_destroy(&e); break; }
      case 5:
        for (int i = 0; i < 20; i++) {
          size_t m = r.below(u.msgs.size());
          auto &fs = u.msgs[m].fields;
          pb_tag_t t = fs.empty() || r.one_in(4) ? random_tag(r, true) : fs[r.below(fs.size())].tag;
          const pb_field_descriptor_t *d = pb_descriptor_field_by_tag(u.desc[m], t);
          mix(!!d);
          if (!d != !u.msgs[m].find(t)) { bad = "a lookup by tag answers wrongly"; continue; }
          if (!d) continue;
          if (pb_field_descriptor_tag(d) != t) bad = "a lookup by tag yields another field";
          const FieldDef *f = u.msgs[m].find(t);
          if (pb_field_descriptor_type(d) != f->type || pb_field_descriptor_label(d) != f->label) bad = "a lookup by tag yields a field of another message";
          mix(pb_field_descriptor_type_size(d)); mix(pb_field_descriptor_wiretype(d));
          disturb();
        }
        break;
      case 6: {
        const FieldDef *f = field(0, true);
        if (!f) break;
        const FieldDef *g = field(f->nested, false);
        if (f->label == PB_LABEL_REPEATED) {
          pb_message_t m = pb_message_create_within(&root, f->tag);
          mix((uint64_t)pb_message_error(&m));
          if (g) { value(*g); mix((uint64_t)pb_message_put(&m, g->tag, n.b)); read(&m, f->nested, 3); }
          pb_message_destroy(&m);
        } else if (g) {
          pb_tag_t t[] = {f->tag, g->tag};
          value(*g);
          mix((uint64_t)pb_message_nested_put(&root, t, 2, n.b));
          mix((uint64_t)pb_message_nested_has(&root, t, 2));
          if (r.one_in(3)) mix((uint64_t)pb_message_nested_erase(&root, t, 2));
        }
        break; }
      case 7: {
        const FieldDef *f = field(0, false);
        if (!f) break;
        pb_cursor_t c = pb_cursor_create(&root, f->tag);
        int i = 0;
        if (pb_cursor_valid(&c)) do {
          pb_error_t e = pb_cursor_get(&c, n.b); mix(*f, e, n);
          value(*f);
          if (r.one_in(3)) mix((uint64_t)pb_cursor_put(&c, n.b));
          else if (r.one_in(4)) mix((uint64_t)pb_cursor_erase(&c));
          disturb();
        } while (i++ < 10 && pb_cursor_next(&c));
        mix((uint64_t)pb_cursor_error(&c));
        pb_cursor_destroy(&c); break; }
      case 8: {
        size_t m = r.below(u.msgs.size());
        for (auto &f : u.msgs[m].fields) {
          const pb_field_descriptor_t *d = pb_descriptor_field_by_name(u.desc[m], f.name.c_str());
          if (f.ext < 0 && (!d || pb_field_descriptor_tag(d) != f.tag)) bad = "a lookup by name yields another field";
          disturb();
        }
        pb_descriptor_iter_t it = pb_descriptor_iter_create(u.desc[m]);
        if (pb_descriptor_iter_begin(&it)) do { mix(pb_field_descriptor_tag(pb_descriptor_iter_current(&it))); disturb(); } while (pb_descriptor_iter_next(&it));
        pb_descriptor_iter_destroy(&it);
        for (size_t e = 0; e < u.enums.size(); e++)
          for (auto &x : u.enums[e].values) {
            const pb_enum_value_descriptor_t *a = pb_enum_descriptor_value_by_number(u.edesc[e], x.first), *b = pb_enum_descriptor_value_by_name(u.edesc[e], x.second.c_str());
            if (!a || a != b) bad = "a lookup of an enum value yields another value";
          }
        for (int e = PB_ERROR_NONE; e <= PB_ERROR_EOM; e++) { const char *x = pb_error_string((pb_error_t)e); mix(x, strlen(x)); }
        break; }
      default: {
        if (u.odesc[0].empty() || r.one_in(3)) {     // a new journal
          pb_message_destroy(&root); pb_journal_destroy(&j);
          open(); break;
        }
        pb_oneof_t o = pb_oneof_create(r.pick(u.odesc[0]), &root);
        mix(pb_oneof_case(&o));
        if (r.one_in(3)) mix((uint64_t)pb_oneof_clear(&o));
        pb_oneof_destroy(&o); }
    }
  }
  void all(int n) {
    begin();
    for (int i = 0; i < n; i++) step();
    end();
  }
  static void *thread(void *p) {
    auto *a = (std::pair<Work *, std::pair<int, uint32_t>> *)p;
    Work &w = *a->first;
    w.s.ready.fetch_add(1, std::memory_order_relaxed);
    while (w.s.ready.load(std::memory_order_relaxed) < a->second.second) sched_yield();
    try { w.all(a->second.first); } catch (const mon::Violation &v) { w.bad = v.msg; }
    return nullptr;
  }
};

// Runs in a process of its own; reports through a pipe.
void body(Rng &r, FILE *out) {
  Universe u;
  Params p; p.messages = 1 + (int)r.below(4); p.max_fields = 3 + (int)r.below(9);
  random_universe(r, u, p);
  Shared s; s.u = &u;
  size_t ni = 1 + r.below(4);
  for (size_t i = 0; i < ni; i++) {
    GenParams g; g.max_depth = 1 + (int)r.below(3);
    std::string b = encode(*random_node(r, u, 0, g));
    if (r.one_in(5) && !b.empty()) b[r.below(b.size())] = (char)r.next();
    s.in.push_back(b);
  }
  s.map();
  for (size_t i = 0; i < ni; i++)
    s.buf.push_back(s.in[i].empty() ? pb_buffer_create_empty() : pb_buffer_create_zero_copy((uint8_t *)(uintptr_t)s.at[i], s.in[i].size()));
  unsigned threads = 2 + (unsigned)r.below(7);
  int steps = 6 + (int)r.below(20);
  bool same = r.one_in(3);           // all threads do the same work
  uint64_t base = r.next();
  op("schema %s\n%zu inputs, %u threads, %d operations each", u.show().c_str(), ni, threads, steps);
  for (auto &b : s.in) op("input %s", mon::hex(b).c_str());
  auto seed = [&](unsigned t) { return same ? base : base + t * 7919; };

  std::vector<std::unique_ptr<Work>> ws;
  std::vector<std::pair<Work *, std::pair<int, uint32_t>>> args;
  for (unsigned t = 0; t < threads; t++) {
    ws.emplace_back(new Work(s, seed(t), r.next(), true));
    args.push_back({ws.back().get(), {steps, threads}});
  }
  std::vector<pthread_t> ids(threads);
  for (unsigned t = 0; t < threads; t++)
    if (pthread_create(&ids[t], nullptr, Work::thread, &args[t])) mon::harness_bug("pthread_create");
  for (unsigned t = 0; t < threads; t++) pthread_join(ids[t], nullptr);

  // What was observed: the order of all beginnings and ends, and calls that overlapped.
  std::vector<std::pair<uint32_t, uint32_t>> ev;
  uint64_t overlaps = 0;
  std::set<std::pair<int, int>> pairs;
  for (unsigned t = 0; t < threads; t++)
    for (auto &x : ws[t]->tickets) {
      ev.push_back({x.begin, t * 64 + x.op}); ev.push_back({x.end, t * 64 + x.op + 32});
      if (x.end != x.begin + 1) overlaps++;
    }
  std::sort(ev.begin(), ev.end());
  std::map<uint32_t, int> open;
  uint64_t order = base, most = 0;
  for (auto &e : ev) {
    order = (order ^ e.second) * 1099511628211ULL + 3;
    uint32_t t = e.second / 64; int o = (int)(e.second % 32);
    if (e.second % 64 < 32) {
      for (auto &q : open) pairs.insert({std::min(o, q.second), std::max(o, q.second)});
      open[t] = o;
      most = std::max<uint64_t>(most, open.size());
    } else open.erase(t);
  }
  fprintf(out, "D %llu\n", (unsigned long long)order);
  for (auto &q : pairs) fprintf(out, "C overlap:%s+%s 1\n", OPS[q.first], OPS[q.second]);
  fprintf(out, "C overlapped-operations %llu\nC operations %zu\nC threads-%u 1\nC simultaneous-%llu 1\n",
    (unsigned long long)overlaps, ev.size() / 2, threads, (unsigned long long)most);
  for (unsigned t = 0; t < threads; t++) for (auto &x : ws[t]->tickets) fprintf(out, "C op:%s 1\n", OPS[x.op]);

  // The same work alone.
  auto bad = [&](const char *key, const std::string &m) { fprintf(out, "V %s %s\n", key, m.c_str()); };
  for (unsigned t = 0; t < threads; t++) {
    Work w(s, seed(t), 0, false);
    w.all(steps);
    if (!w.bad.empty()) bad("wrong-alone", w.bad);
    if (!ws[t]->bad.empty()) bad("wrong-concurrently", ws[t]->bad);
    if (ws[t]->log.size() != w.log.size()) { bad("differs", "a thread did not finish its work"); continue; }
    for (size_t i = 0; i < w.log.size(); i++) if (w.log[i] != ws[t]->log[i]) {
      bad("differs", "thread " + std::to_string(t) + " of " + std::to_string(threads) + ", operation " + std::to_string(i) + " (" +
        OPS[ws[t]->tickets[i].op] + "): the result differs from the one obtained alone");
      break;
    }
    fprintf(out, "C results-compared %zu\n", w.log.size());
  }
  for (size_t i = 0; i < ni; i++) if (memcmp(s.at[i], s.in[i].data(), s.in[i].size())) bad("input-modified", "shared bytes changed");
  fprintf(out, "E\n");
}

void shared(Rng &r, uint64_t id) {
  int p[2];
  if (pipe(p)) mon::harness_bug("pipe");
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) mon::harness_bug("fork");
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p[0]);
    FILE *f = fdopen(p[1], "w");
    body(r, f);
    fclose(f);
    _exit(0);
  }
  close(p[1]);
  // The child writes little, so its output fits into the pipe: wait for its end first.
  int st = 0;
  bool late = true;
  for (int ms = 0; ms < 120000 && late; ms += ms < 200 ? 1 : 20) {
    if (waitpid(pid, &st, WNOHANG) == pid) late = false;
    else usleep(ms < 200 ? 1000 : 20000);
    if (ms > 3000 && ms % 1000 == 0 && mon::crashed()) break;
  }
  if (late) {      // hung, or stuck while reporting a race
    kill(pid, SIGKILL);
    waitpid(pid, &st, 0);
    if (mon::crashed()) _exit(77);
    mon::dump_crash();
    fprintf(stderr, "WATCHDOG: the threads did not finish within 120 s (hang)\n");
    _exit(71);
  }
  FILE *f = fdopen(p[0], "r");
  char line[4096], k[300]; unsigned long long n; bool complete = false;
  std::string key, msg;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == 'C' && sscanf(line, "C %299s %llu", k, &n) == 2) mon::count(k, n);
    else if (line[0] == 'D' && sscanf(line, "D %llu", &n) == 1) { mon::distinct(n); if (id < 2) mon::sample("order of events " + std::string(line)); }
    else if (line[0] == 'V' && key.empty()) { sscanf(line, "V %299s", k); key = k; msg = line + 2 + strlen(k); }
    else if (line[0] == 'E') complete = true;
  }
  fclose(f);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(72); }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));   // the child left its history behind
  if (!complete) mon::harness_bug("the child did not finish");
  if (!key.empty()) violate(key.c_str(), "%s", msg.c_str());
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"shared", shared, 1600, 60000},
  });
}
