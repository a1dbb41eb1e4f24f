#include "mon.hh"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace mon {

static std::string g_history;
static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_distinct, g_states;
static uint64_t g_case_hash;
static std::vector<std::string> g_samples;
static std::string g_out;
static Opts g_opts;
static const char *g_suite = "";
static uint64_t g_case = 0;
static const size_t MAX_HISTORY = 1 << 20;

const Opts &opts() { return g_opts; }

static std::string vfmt(const char *fmt, va_list ap) {
  va_list cp; va_copy(cp, ap);
  int n = vsnprintf(nullptr, 0, fmt, cp);
  va_end(cp);
  std::string s((size_t)(n > 0 ? n : 0), '\0');
  if (n > 0) vsnprintf(&s[0], (size_t)n + 1, fmt, ap);
  return s;
}

static std::string jesc(const std::string &s);
void violate(const char *key, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, m};
}

// Reported findings, kept until the end of the run (one per key and process).
static std::map<std::string, std::string> g_reports;
void report(const std::string &key, const std::string &msg) {
  if (g_reports.count(key)) return;
  g_reports[key] = std::string("{\"key\":") + jesc(key) + ",\"msg\":" + jesc(msg) +
    ",\"suite\":" + jesc(g_suite) + ",\"case\":" + std::to_string(g_case) +
    ",\"history\":" + jesc(g_history) + "}";
}

void harness_bug(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  std::string m = vfmt(fmt, ap);
  va_end(ap);
  fprintf(stderr, "HARNESS-BUG: suite=%s case=%llu %s\n%s\n", g_suite,
    (unsigned long long)g_case, m.c_str(), g_history.c_str());
  fflush(stderr);
  _exit(70);
}

void op(const char *fmt, ...) {
  if (g_history.size() > MAX_HISTORY) return;
  va_list ap; va_start(ap, fmt);
  g_history += vfmt(fmt, ap);
  g_history += '\n';
  va_end(ap);
}

void count(const char *what, uint64_t n) { g_counts[what] += n; }
void distinct(uint64_t h) {
  g_case_hash = (g_case_hash ^ h) * 1099511628211ULL + 1;
  if (g_states.size() < 4000000) g_states.insert(h);
}
void sample(const std::string &s) {
  if (g_samples.size() < 2) g_samples.push_back(s.substr(0, 1500));
}

std::string hex(const void *p, size_t n, size_t max) {
  static const char *d = "0123456789abcdef";
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n && i < max; i++) {
    s += d[b[i] >> 4]; s += d[b[i] & 15];
  }
  if (n > max) s += "...(" + std::to_string(n) + " bytes)";
  return s.empty() ? "-" : s;
}

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

static void write_file(const std::string &path, const std::string &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = write(fd, data.data() + off, data.size() - off);
    if (n <= 0) break;
    off += (size_t)n;
  }
  close(fd);
}

// On abnormal death (sanitizer report, fatal signal, watchdog), leave the
// current case and its history behind for the runner.
// Allocates nothing: other threads may hold the allocator's locks.
static std::string g_crash_path;
void dump_crash() {
  int fd = open(g_crash_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  char head[300];
  int n = snprintf(head, sizeof head, "suite=%s\ncase=%llu\n", g_suite, (unsigned long long)g_case);
  if (n > 0) (void)!write(fd, head, (size_t)n);
  size_t off = 0, size = g_history.size();
  while (off < size) {
    ssize_t k = write(fd, g_history.data() + off, size - off);
    if (k <= 0) break;
    off += (size_t)k;
  }
  close(fd);
}

bool crashed() { return access(g_crash_path.c_str(), F_OK) == 0; }

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void on_signal(int sig) {
  dump_crash();
  if (sig == SIGVTALRM) {
    static const char m[] = "WATCHDOG: case exceeded its CPU budget (hang)\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(71);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}

static void arm(int seconds) {
  struct itimerval it = {};
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

int main(int argc, char **argv, const std::vector<Suite> &suites) {
  uint64_t shard = 0, shards = 1, only_case = 0; bool replay = false;
  double scale = 1.0;
  std::string only_suite, after_suite;
  uint64_t after_case = 0;
  g_opts.seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g_opts.seed = strtoull(val(), 0, 10);
    else if (a == "--shard") shard = strtoull(val(), 0, 10);
    else if (a == "--shards") shards = strtoull(val(), 0, 10);
    else if (a == "--out") g_out = val();
    else if (a == "--thorough") g_opts.thorough = true;
    else if (a == "--scale") scale = atof(val());
    else if (a == "--suite") only_suite = val();
    else if (a == "--after-suite") after_suite = val();
    else if (a == "--after-case") after_case = strtoull(val(), 0, 10);
    else if (a == "--case") { only_case = strtoull(val(), 0, 10); replay = true; }
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 64; }
  }
  g_crash_path = g_out + ".crash";
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_crash);
  else {
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
      static char stack[65536];
      stack_t ss = {}; ss.ss_sp = stack; ss.ss_size = sizeof stack;
      sigaltstack(&ss, nullptr);
      struct sigaction sa = {};
      sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
      sigaction(s, &sa, nullptr);
    }
  }
  signal(SIGVTALRM, on_signal);

  std::string vio;
  std::map<std::string, int> seen;
  uint64_t evals = 0, nvio = 0;
  bool verbose = getenv("MON_VERBOSE") != nullptr;
  for (const Suite &suite : suites) {
    if (!only_suite.empty() && only_suite != suite.name) continue;
    bool skip = !after_suite.empty();
    if (skip && after_suite != suite.name) continue;
    after_suite.clear();
    g_suite = suite.name;
    uint64_t n = g_opts.thorough ? suite.thorough : suite.quick;
    n = (uint64_t)((double)n * scale);
    if (n == 0) n = 1;
    for (uint64_t c = replay ? only_case : shard; replay ? c == only_case : c < n;
         c += shards) {
      if (skip && c <= after_case) continue;
      g_case = c; g_history.clear();
      g_opts.id = c; g_opts.cases = n;
      Rng rng(fnv(suite.name, strlen(suite.name),
        g_opts.seed * 0x9E3779B97F4A7C15ULL + c + 1));
      rng.next();
      arm(30);
      evals++; g_case_hash = 0;
      try {
        suite.run(rng, c);
      } catch (const Violation &v) {
        nvio++;
        if (replay || seen[v.key]++ < 1) {
          vio += (vio.empty() ? "" : ",\n") + std::string("{\"key\":") +
            jesc(v.key) + ",\"msg\":" + jesc(v.msg) + ",\"suite\":" +
            jesc(suite.name) + ",\"case\":" + std::to_string(c) +
            ",\"history\":" + jesc(g_history) + "}";
          if (replay || verbose)
            printf("VIOLATED %s case %llu: %s\n%s\n  %s\n", suite.name,
              (unsigned long long)c, v.key.c_str(), g_history.c_str(),
              v.msg.c_str());
        }
        if (nvio > 2000) break;
      }
      if (g_case_hash) g_distinct.insert(g_case_hash);
      if (replay) break;
    }
  }
  arm(0);
  for (auto &x : g_reports) {
    vio += (vio.empty() ? "" : ",\n") + x.second;
    if (replay || verbose) printf("REPORTED %s\n", x.second.c_str());
  }
  if (replay) { if (!nvio) printf("case passed\n%s\n", g_history.c_str()); return nvio ? 1 : 0; }
  std::string out = "{\"evaluations\":" + std::to_string(evals) +
    ",\"violating_cases\":" + std::to_string(nvio) + ",\"counts\":{";
  bool first = true;
  for (auto &kv : g_counts) {
    out += (first ? "" : ",") + jesc(kv.first) + ":" + std::to_string(kv.second);
    first = false;
  }
  out += "},\"samples\":[";
  first = true;
  for (auto &s : g_samples) { out += (first ? "" : ",") + jesc(s); first = false; }
  out += "],\"violations\":[" + vio + "]}";
  if (!g_out.empty()) {
    std::string d;
    for (uint64_t h : g_distinct) d.append((const char *)&h, 8);
    write_file(g_out + ".distinct", d);
    d.clear();
    for (uint64_t h : g_states) d.append((const char *)&h, 8);
    write_file(g_out + ".states", d);
    write_file(g_out, out);
  } else {
    printf("%s\ndistinct=%zu\n", out.c_str(), g_distinct.size());
  }
  return 0;
}

}  // namespace mon
