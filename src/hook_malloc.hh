// The harness side of hook_malloc.h: the library's system allocator is a Ledger.
#ifndef HOOK_MALLOC_HH
#define HOOK_MALLOC_HH
#include "alloc.hh"
#include "hook_malloc.h"
static Ledger &sys() { static Ledger *l = new Ledger; return *l; }
static uint64_t g_sys_calls;
extern "C" {
void *mon_malloc(size_t n) {
  g_sys_calls++;
  if (n > (1ull << 30)) return nullptr;   // more than this system has
  return sys().allocate(n);
}
void *mon_calloc(size_t n, size_t k) {
  g_sys_calls++;
  if (k && n > (1ull << 30) / k) return nullptr;
  void *p = sys().allocate(n * k);
  if (p) memset(p, 0, n * k);
  return p;
}
void *mon_realloc(void *b, size_t n) {
  g_sys_calls++;
  if (n > (1ull << 30)) return nullptr;
  return sys().resize(b, n);
}
void mon_free(void *b) { g_sys_calls++; if (b) sys().release(b); }
}
// Start of a case: nothing of an earlier (violating) case remains.
static void sys_reset() {
  Ledger &l = sys();
  l.disarm(); l.denied = 0;
  l.live.clear();
}
#endif
