// C14: every allocation is owned, bounded, passed to its allocator and released.
#include "session.hh"
#include "hook_malloc.hh"
extern "C" {
#include <protobluff/util/chunk_allocator.h>
}
using namespace session;

namespace {

struct Block { uint8_t *p; size_t n; uint8_t pat; };
void fill(Block &b, size_t from) { for (size_t i = from; i < b.n; i++) b.p[i] = (uint8_t)(b.pat + i * 7); }
void verify(const Block &b, size_t n, const char *what) {
  for (size_t i = 0; i < n; i++)
    if (b.p[i] != (uint8_t)(b.pat + i * 7))
      violate("block-content", "%s: byte %zu of a block of %zu bytes changed", what, i, b.n);
}
size_t size_for(Rng &r, size_t cap) {
  switch (r.below(7)) {
    case 0: return 1 + r.below(3);
    case 1: { size_t k = cap * (1 + r.below(4)), d = r.below(3); return k + d > 1 ? k + d - 1 : 1; }
    case 2: return cap * (1 + r.below(4));
    case 3: return 1 + r.below(cap * 5);
    case 4: return 1 + r.below(100000);
    default: return 1 + r.below(cap + 1);
  }
}

void chunk(Rng &r, uint64_t id) {
  sys_reset();
  size_t cap = r.one_in(3) ? 1 + r.below(8) : r.flip() ? 1 + r.below(300) : 4096;
  if (r.one_in(20)) {   // creation fails
    sys().arm(1, false);
    pb_allocator_t a = pb_chunk_allocator_create();
    sys().disarm();
    void *p = pb_allocator_allocate(&a, 10), *q = pb_allocator_resize(&a, nullptr, 10);
    if (p || q) violate("failed-allocator", "an allocator that could not be created hands out blocks");
    pb_chunk_allocator_destroy(&a);
    sys().expect_empty("after a failed creation");
    mon::count("failed-creations");
    return;
  }
  pb_allocator_t a = cap == 4096 ? pb_chunk_allocator_create() : pb_chunk_allocator_create_with_capacity(cap);
  std::vector<Block> bs;
  int steps = 5 + (int)r.below(60); uint8_t pat = (uint8_t)r.next();
  op("chunk allocator of capacity %zu", cap);
  while (steps--) {
    unsigned k = (unsigned)r.below(10);
    bool fault = r.one_in(10), huge = r.one_in(15);
    if (fault) { sys().denied = 0; sys().arm(1, false); }
    if (k < 5 || bs.empty()) {
      size_t n = huge ? SIZE_MAX - r.below(r.flip() ? 40 : SIZE_MAX / 3) : size_for(r, cap);
      void *p = r.one_in(4) ? pb_allocator_resize(&a, nullptr, n) : pb_allocator_allocate(&a, n);
      op("allocate %zu: %s", n, p ? "ok" : "null");
      mon::count(huge ? "huge-requests" : "chunk-allocations");
      if (huge ? !!p : !p && !(fault && sys().denied)) violate("chunk-allocate", "allocating %zu bytes: %s", n, p ? "succeeds" : "fails");
      if (fault && sys().denied && p) violate("chunk-fault-hidden", "a denied allocation yields a block");
      if (p) {
        if ((uintptr_t)p % alignof(max_align_t)) violate("chunk-alignment", "block %p of %zu bytes", p, n);
        Block b{(uint8_t *)p, n, pat += 13};
        fill(b, 0); bs.push_back(b);
      }
    } else if (k < 8) {
      Block &b = bs[r.below(bs.size())];
      size_t n = huge ? SIZE_MAX - r.below(r.flip() ? 40 : SIZE_MAX / 3) : size_for(r, cap);
      void *p = pb_allocator_resize(&a, b.p, n);
      op("resize %zu to %zu: %s", b.n, n, p ? "ok" : "null");
      mon::count(huge ? "huge-requests" : "chunk-resizes");
      if (huge ? !!p : !p && !(fault && sys().denied)) violate("chunk-resize", "resizing %zu to %zu bytes: %s", b.n, n, p ? "succeeds" : "fails");
      if (p) {
        if ((uintptr_t)p % alignof(max_align_t)) violate("chunk-alignment", "block %p of %zu bytes", p, n);
        size_t keep = std::min(b.n, n);
        b.p = (uint8_t *)p; b.n = n;
        ::verify(b, keep, "resize");
        fill(b, keep);
      }
    } else {
      size_t i = r.below(bs.size());
      op("free %zu", bs[i].n);
      size_t before = sys().live.size();
      pb_allocator_free(&a, bs[i].p);
      bs.erase(bs.begin() + (long)i);
      mon::count("chunk-frees");
      if (sys().live.size() != before - 1) violate("chunk-free", "freeing a block releases %zd system blocks", (ssize_t)(before - sys().live.size()));
    }
    sys().disarm();
    uint64_t h = cap;
    for (auto &b : bs) {
      ::verify(b, b.n, "another operation");
      h = h * 1099511628211ULL + b.n;
      for (auto &c : bs) if (&b != &c && b.p < c.p + c.n && c.p < b.p + b.n) violate("chunk-overlap", "blocks overlap");
    }
    mon::distinct(h);
  }
  if (id < 1) mon::sample("capacity " + std::to_string(cap) + ", " + std::to_string(bs.size()) + " blocks alive at the end");
  pb_chunk_allocator_destroy(&a);
  sys().expect_empty("after destroying the chunk allocator");
}

enum Mode { CUSTOM, DEFAULT, CHUNK, MIXED };

void history(Rng &r, uint64_t id, Mode mode) {
  sys_reset();
  Params p; p.messages = 2 + (int)r.below(4); p.max_fields = 4 + (int)r.below(6);
  GenParams g; g.max_depth = 1 + (int)r.below(4); g.empty_runs = r.one_in(4);
  Weights w; w.max_handles = 4 + (int)r.below(10); w.stale = 8;
  Universe u; random_universe(r, u, p);
  Ledger led, led2;
  pb_allocator_t ch = {}; bool chunked = mode == CHUNK;
  if (chunked) ch = pb_chunk_allocator_create_with_capacity(1 + r.below(200));
  g_alloc = mode == DEFAULT ? nullptr : chunked ? &ch : &led.a;
  g_alloc2 = mode == DEFAULT ? nullptr : mode == MIXED ? nullptr : chunked ? &led2.a : &led2.a;
  uint64_t calls = g_sys_calls;
  size_t peak = 0;
  {
    Session s(r, u, g, w);
    int n = 10 + (int)r.below(40);
    for (int i = 0; i < n; i++) {
      s.step();
      peak = std::max(peak, led.live.size() + sys().live.size());
      // submessages given as values are separate and destroyed by now
      if (!led2.live.empty()) violate("leak-value", "%zu blocks of a destroyed journal are still allocated", led2.live.size());
    }
    s.run(0);
    mon::distinct(mon::fnv(s.bytes()));
    if (mode == CUSTOM && g_sys_calls != calls)
      violate("bypass", "%llu calls of the system allocator although a custom one was given", (unsigned long long)(g_sys_calls - calls));
    if (id < 1) mon::sample(u.show() + " peak blocks " + std::to_string(peak));
  }
  mon::count(mode == CUSTOM ? "custom-histories" : mode == DEFAULT ? "default-histories" : chunked ? "chunk-histories" : "mixed-histories");
  if (!chunked) led.expect_empty("after destroying all objects");
  led2.expect_empty("after destroying all objects");
  if (chunked) pb_chunk_allocator_destroy(&ch);
  sys().expect_empty("after destroying all objects");
  g_alloc = g_alloc2 = nullptr;
}
void custom(Rng &r, uint64_t id) { history(r, id, CUSTOM); }
void deflt(Rng &r, uint64_t id) { history(r, id, DEFAULT); }
void chunked(Rng &r, uint64_t id) { history(r, id, CHUNK); }
void mixed(Rng &r, uint64_t id) { history(r, id, MIXED); }

// A chunk allocator that is destroyed with journals and encoders still using it.
void bulk(Rng &r, uint64_t) {
  sys_reset();
  Params p; p.messages = 2; Universe u; random_universe(r, u, p);
  GenParams g; g.max_depth = 2;
  pb_allocator_t ch = pb_chunk_allocator_create_with_capacity(1 + r.below(100));
  int n = 1 + (int)r.below(10);
  for (int i = 0; i < n; i++) {
    std::string b = encode(*random_node(r, u, 0, g));
    pb_journal_t j = make_journal(&ch, b);
    pb_message_t m = pb_message_create(u.desc[0], &j);
    for (auto &f : u.msgs[0].fields) if (r.flip() && f.type != PB_TYPE_MESSAGE) {
      Native v; Val x = field_val(r, u, f); to_native(x, v);
      if (pb_message_put(&m, f.tag, v.b)) violate("bulk-put", "put fails");
    }
    pb_message_destroy(&m);
    if (r.flip()) {
      pb_encoder_t e = pb_encoder_create_with_allocator(&ch, u.desc[0]);
      for (auto &f : u.msgs[0].fields) if (r.flip() && f.type != PB_TYPE_MESSAGE) {
        Native v; Val x = field_val(r, u, f); to_native(x, v);
        if (pb_encoder_encode(&e, f.tag, v.b, 1)) violate("bulk-encode", "encode fails");
      }
      if (r.flip()) pb_encoder_destroy(&e);
    }
    if (r.flip()) pb_journal_destroy(&j);
    mon::distinct(mon::fnv(b, sys().live.size()));
  }
  mon::count("bulk-releases");
  pb_chunk_allocator_destroy(&ch);
  sys().expect_empty("after destroying the chunk allocator");
}

// Blocks up to 64 MiB from allocators of every capacity; only samples are compared.
void giant(Rng &r, uint64_t) {
  sys_reset();
  size_t cap = r.one_in(3) ? 1 + r.below(8) : r.flip() ? 4096 : (size_t)1 << r.below(21);
  pb_allocator_t a = pb_chunk_allocator_create_with_capacity(cap);
  uint8_t *small = (uint8_t *)pb_allocator_allocate(&a, 100);
  if (!small) violate("chunk-allocate", "100 bytes are refused");
  memset(small, 0x5a, 100);
  uint8_t *p = nullptr; size_t n = 0;
  for (int i = 0; i < 4; i++) {
    size_t want = ((size_t)1 << (10 + r.below(17))) + r.below(5) - 2;
    op("capacity %zu: block of %zu to %zu bytes", cap, n, want);
    uint8_t *q = (uint8_t *)(p ? pb_allocator_resize(&a, p, want) : pb_allocator_allocate(&a, want));
    if (!q) violate(p ? "chunk-resize" : "chunk-allocate", "%zu bytes (then %zu) are refused", n, want);
    if ((uintptr_t)q % alignof(max_align_t)) violate("chunk-alignment", "block %p of %zu bytes", (void *)q, want);
    auto at = [&](size_t m, int k) { return k < 8 ? (size_t)k : m - 1 - (m / 57) * (size_t)(k - 8); };
    size_t m = std::min(n, want);
    if (m) for (int k = 0; k < 8; k++) if (q[at(m, k)] != (uint8_t)(at(m, k) * 31 + 7)) violate("chunk-content:resize", "byte %zu of %zu", at(m, k), m);
    for (size_t k = 4095; k < m; k += 4096) if (q[k] != (uint8_t)(k * 31 + 7)) violate("chunk-content:resize", "byte %zu of %zu", k, m);
    p = q; n = want;
    for (int k = 0; k < 60; k++) p[at(n, k)] = (uint8_t)(at(n, k) * 31 + 7);
    for (size_t k = 4095; k < n; k += 4096) p[k] = (uint8_t)(k * 31 + 7);
    for (int k = 0; k < 100; k++) if (small[k] != 0x5a) violate("chunk-content:another operation", "byte %d of a small block", k);
    mon::count("giant-blocks"); mon::distinct(mon::fnv(&want, sizeof want, cap));
  }
  if (r.flip()) pb_allocator_free(&a, p);
  pb_chunk_allocator_destroy(&a);
  sys().expect_empty("after destroying the chunk allocator");
}

}  // namespace

int main(int argc, char **argv) {
  return mon::main(argc, argv, {
    {"chunk", chunk, 12000, 800000}, {"custom", custom, 2500, 150000}, {"default", deflt, 1500, 80000},
    {"chunk-history", chunked, 1500, 80000}, {"mixed", mixed, 800, 40000}, {"bulk", bulk, 3000, 150000},
    {"giant", giant, 40, 1000}});
}
