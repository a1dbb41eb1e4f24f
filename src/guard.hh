// Memory blocks placed flush against an inaccessible page, so that reads or
// writes past their end fault in uninstrumented builds, too.
#ifndef GUARD_HH
#define GUARD_HH
#include "mon.hh"
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define GUARD_HEAP 1
#endif
#endif
#include <sys/mman.h>
#include <unistd.h>

// Contents end exactly at a PROT_NONE page (an exactly sized heap block under
// AddressSanitizer, which also watches the bytes in front).
class Guarded {
 public:
  uint8_t *data = nullptr;
  size_t size = 0;
  explicit Guarded(const std::string &s) : size(s.size()) {
#ifdef GUARD_HEAP
    data = (uint8_t *)malloc(size ? size : 1);
    heap = true;
    if (!size) { free(data); data = (uint8_t *)malloc(0); }
#else
    const size_t page = 4096, cap = (size + page) / page * page;
    Pool &p = pool();
    if (cap <= p.cap && !p.used) { p.used = true; pooled = true; data = p.end - size; }
    else {
      len = cap + page;
      map = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (map == MAP_FAILED) mon::harness_bug("mmap");
      if (mprotect(map + cap, page, PROT_NONE)) mon::harness_bug("mprotect");
      data = map + cap - size;
    }
#endif
    if (size) memcpy(data, s.data(), size);
  }
  ~Guarded() {
    if (heap) free(data);
    else if (pooled) pool().used = false;
    else if (map) munmap(map, len);
  }
  Guarded(const Guarded &) = delete;
  Guarded &operator=(const Guarded &) = delete;
  std::string str() const { return std::string((const char *)data, size); }
  bool inside(const void *p, size_t n) const {
    const uint8_t *b = (const uint8_t *)p;
    return b >= data && b + n <= data + size && n <= size;
  }

 private:
  bool heap = false, pooled = false;
  uint8_t *map = nullptr;
  size_t len = 0;
  struct Pool { uint8_t *end = nullptr; size_t cap = 0; bool used = false; };
  static Pool &pool() {
    static Pool p;
    if (!p.end) {
      p.cap = 1 << 17;
      uint8_t *m = (uint8_t *)mmap(nullptr, p.cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m == MAP_FAILED || mprotect(m + p.cap, 4096, PROT_NONE)) mon::harness_bug("mmap");
      p.end = m + p.cap;
    }
    return p;
  }
};
#endif
