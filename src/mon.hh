// Common runtime for all monitors: deterministic RNG, case driver, violation
// reporting, event counters, distinct-state accounting, hang watchdog.
#ifndef MON_HH
#define MON_HH
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>
#include <functional>
#include <iterator>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool one_in(uint64_t n) { return below(n) == 0; }
  bool flip() { return next() & 1; }
  template <class V> auto &pick(V &v) { return v[below(std::size(v))]; }
};

struct Violation { std::string key, msg; };

// Report a violation of the property by the code under test. `key` identifies
// the failing behaviour (stable across seeds); `msg` is the concrete history.
[[noreturn]] void violate(const char *key, const char *fmt, ...)
  __attribute__((format(printf, 2, 3)));

// Report a violation and go on with the case (for findings that may be listed in
// known_findings.json); recorded once per key and process.
void report(const std::string &key, const std::string &msg);

// The harness itself is wrong (not the code under test).
[[noreturn]] void harness_bug(const char *fmt, ...)
  __attribute__((format(printf, 1, 2)));

// Append a line to the current case's history (printed upon violation/crash).
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Observed events; distinct(h): a state that was compared with the oracle. A
// case is non-trivial if it has such states, and distinct by their sequence.
void count(const char *what, uint64_t n = 1);
void distinct(uint64_t hash);
void sample(const std::string &s);
// Name of probe: violation inside will carry this prefix in key.
std::string hex(const void *p, size_t n, size_t max = 400);
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  return fnv(s.data(), s.size(), h);
}

struct Opts { uint64_t seed; bool thorough; uint64_t cases; uint64_t id; };
const Opts &opts();

// Leave the current case and its history behind for the runner (before dying).
void dump_crash();
bool crashed();      // it was done

// A suite of a harness: name, the case body and its case counts per tier.
struct Suite {
  const char *name;
  void (*run)(Rng &rng, uint64_t id);
  uint64_t quick, thorough;
};

int main(int argc, char **argv, const std::vector<Suite> &suites);

}  // namespace mon
#endif
