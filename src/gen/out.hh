// Report of a per-case harness: lines read by run/gen.py.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
namespace out {
inline std::map<std::string, uint64_t> counts;
inline std::set<uint64_t> distinct, states;
inline std::set<std::string> keys;
inline uint64_t evaluations = 0;

inline void count(const std::string &k, uint64_t n = 1) { counts[k] += n; }

inline uint64_t hash(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

__attribute__((format(printf, 2, 3)))
inline void violation(const std::string &key, const char *fmt, ...) {
  if (!keys.insert(key).second) return;
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *p = buf; *p; p++) if (*p == '\n' || *p == '\t' || *p == '\r') *p = ' ';
  printf("V\t%s\t%s\n", key.c_str(), buf);
  fflush(stdout);
}

inline void finish() {
  for (auto &c : counts) printf("C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto h : distinct) printf("D\t%llu\n", (unsigned long long)h);
  for (auto h : states) printf("S\t%llu\n", (unsigned long long)h);
  printf("E\t%llu\n", (unsigned long long)evaluations);
  fflush(stdout);
}
}
