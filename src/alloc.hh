// Tracking and fault-injecting allocator handed to the library.
#ifndef ALLOC_HH
#define ALLOC_HH
#include "mon.hh"
extern "C" {
#include <protobluff.h>
}

// Every block lives in an exactly sized heap block of its own (so AddressSanitizer
// watches its borders); resizing always moves, so stale pointers are noticed.
struct Ledger {
  pb_allocator_t a;
  std::map<void *, size_t> live;
  uint64_t requests = 0;      // allocate and resize calls so far
  uint64_t frees = 0, denied = 0;
  uint64_t fail_at = 0;       // deny the n-th request from now (1-based, 0: never)
  bool fail_rest = false;     // ... and all later ones
  std::function<void()> on_request;   // called at every request
  bool shrinking = false;     // the current request shrinks a block

  Ledger() {
    a.proc.allocate = [](void *d, size_t n) { return ((Ledger *)d)->allocate(n); };
    a.proc.resize = [](void *d, void *b, size_t n) { return ((Ledger *)d)->resize(b, n); };
    a.proc.free = [](void *d, void *b) { ((Ledger *)d)->release(b); };
    a.data = this;
  }
  Ledger(const Ledger &) = delete;
  Ledger &operator=(const Ledger &) = delete;
  ~Ledger() { for (auto &b : live) free(b.first); }

  void arm(uint64_t n, bool rest) { fail_at = n ? requests + n : 0; fail_rest = rest; }
  void disarm() { fail_at = 0; fail_rest = false; }
  bool deny() {
    requests++;
    if (on_request) on_request();
    mon::count("allocation-requests");
    if (fail_at && (requests == fail_at || (fail_rest && requests > fail_at))) {
      denied++; mon::count("denied-allocations"); return true;
    }
    return false;
  }
  void *fresh(size_t n) {
    void *p = malloc(n);
    if (!p) mon::harness_bug("out of memory: %zu", n);
    memset(p, 0xCD, n);
    live[p] = n;
    return p;
  }
  void *allocate(size_t n) {
    if (!n) mon::violate("allocate-zero", "a block of zero bytes is requested");
    if (n > (1ull << 32)) mon::violate("allocate-huge", "a block of %zu bytes is requested", n);
    if (deny()) return nullptr;
    return fresh(n);
  }
  void *resize(void *b, size_t n) {
    if (!n) mon::violate("resize-zero", "a block is resized to zero bytes");
    if (n > (1ull << 32)) mon::violate("allocate-huge", "a block of %zu bytes is requested", n);
    auto it = live.find(b);
    if (b && it == live.end()) mon::violate("resize-foreign", "a block that is not allocated is resized");
    shrinking = b && n < it->second;
    bool no = deny();
    shrinking = false;
    if (no) return nullptr;
    void *p = fresh(n);
    if (b) {
      size_t old = it->second;
      memcpy(p, b, old < n ? old : n);
      live.erase(b);
      memset(b, 0xDD, old);
      free(b);
    }
    return p;
  }
  void release(void *b) {
    auto it = live.find(b);
    if (it == live.end()) mon::violate("free-foreign", "a block that is not allocated is freed");
    memset(b, 0xDD, it->second);
    live.erase(it);
    free(b);
    frees++;
  }
  size_t bytes() const { size_t n = 0; for (auto &b : live) n += b.second; return n; }
  void expect_empty(const char *what) {
    if (!live.empty()) mon::violate("leak", "%s: %zu blocks (%zu bytes) are still allocated", what, live.size(), bytes());
  }
};
#endif
