// Verification harness core: deterministic RNG, case bookkeeping, monitors'
// verdict channel, counters.  Uses nothing of the code under test.
#pragma once
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- rng
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
  return h;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1)));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- context
struct Context {
  std::string prop = "?";
  uint64_t seed = 1;
  int fd = -1;  // progress file: which case is running (read by the runner)
  std::string scenario;
  uint64_t index = 0;
  std::atomic<uint64_t> step{0};
  char what[160] = {0};
  bool verbose = false;
};
inline Context& ctx() {
  static Context* c = new Context;  // never destroyed: used by atexit/handlers
  return *c;
}
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(ctx().what, sizeof ctx().what, fmt, ap);
  va_end(ap);
  if (ctx().verbose)
    fprintf(stderr, "[%s:%llu step %llu] %s\n", ctx().scenario.c_str(),
            (unsigned long long)ctx().index,
            (unsigned long long)ctx().step.load(), ctx().what);
}
inline void step() { ctx().step.fetch_add(1, std::memory_order_relaxed); }

// Verdict: the oracle saw a violation.
[[noreturn]] inline void fail(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fflush(stdout);
  fprintf(stderr, "MONITOR-VIOLATION scenario=%s case=%llu step=%llu op=[%s]: %s\n",
          ctx().scenario.c_str(), (unsigned long long)ctx().index,
          (unsigned long long)ctx().step.load(), ctx().what, buf);
  fflush(stderr);
  _exit(42);
}
#define VH_CHECK(cond, ...)            \
  do {                                 \
    if (!(cond)) ::vh::fail(__VA_ARGS__); \
  } while (0)

// Harness problem (never a verdict).
[[noreturn]] inline void broken(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "HARNESS-ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  _exit(3);
}

// ---------------------------------------------------------------- counters
struct Counters {
  std::map<std::string, uint64_t> n;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
};
inline Counters& counters() {
  static Counters* c = new Counters;
  return *c;
}
inline void count(const char* name, uint64_t by = 1) { counters().n[name] += by; }
inline void count_max(const char* name, uint64_t v) {
  auto& x = counters().n[name];
  if (v > x) x = v;
}
// Record an observed (abstract) state / event signature.
inline void state(uint64_t h) {
  if (counters().states.size() < 2000000) counters().states.insert(mix(h));
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a ^ (b * 0x9e3779b97f4a7c15ULL)); }
inline void sample(const std::string& s) {
  if (counters().samples.size() < 3) counters().samples.push_back(s);
}

// ---------------------------------------------------------------- scenarios
struct Case {
  std::string scenario;
  uint64_t index;
  uint64_t seed;  // derived
  unsigned depth; // 1 quick, larger = deeper
  Rng rng;
};
struct Scenario {
  const char* name;
  std::function<void(Case&)> fn;
  unsigned quick_cases;     // total over all shards
  unsigned thorough_cases;
};
inline std::vector<Scenario>& scenarios() {
  static auto* v = new std::vector<Scenario>;
  return *v;
}
struct Reg {
  Reg(const char* name, unsigned q, unsigned t, std::function<void(Case&)> fn) {
    scenarios().push_back({name, std::move(fn), q, t});
  }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SCENARIO(name, quick, thorough, ...) \
  static ::vh::Reg VH_CAT(vh_reg_, __COUNTER__)(name, quick, thorough, __VA_ARGS__)

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c));
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

inline void arm_watchdog();
inline void set_case(const Scenario& s, uint64_t i) {
  ctx().scenario = s.name;
  ctx().index = i;
  ctx().step = 0;
  ctx().what[0] = 0;
  arm_watchdog();
  if (ctx().fd >= 0) {
    char b[256];
    int n = snprintf(b, sizeof b, "%-120s %20llu\n", s.name, (unsigned long long)i);
    if (pwrite(ctx().fd, b, static_cast<size_t>(n), 0) < 0) { /* ignore */ }
  }
}

// Print what was going on when the process is about to die abnormally.
inline void on_abort(int sig) {
  char b[512];
  int n = snprintf(b, sizeof b,
                   "ABNORMAL-END signal=%d scenario=%s case=%llu step=%llu op=[%s]\n",
                   sig, ctx().scenario.c_str(), (unsigned long long)ctx().index,
                   (unsigned long long)ctx().step.load(), ctx().what);
  if (write(2, b, static_cast<size_t>(n)) < 0) { /* ignore */ }
  signal(sig, SIG_DFL);
  raise(sig);
}

// CPU-time watchdog of one case (cases take well under a second; a case that
// burns this much is stuck).  The runner repeats the case alone before it
// believes it.
inline unsigned& watchdog_seconds() {
  static unsigned s = 60;
  return s;
}
inline void arm_watchdog() {
  itimerval t{};
  t.it_value.tv_sec = watchdog_seconds();
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_hang(int) {
  char b[512];
  int n = snprintf(b, sizeof b, "HANG-WATCHDOG scenario=%s case=%llu step=%llu op=[%s]\n",
                   ctx().scenario.c_str(), (unsigned long long)ctx().index,
                   (unsigned long long)ctx().step.load(), ctx().what);
  if (write(2, b, static_cast<size_t>(n)) < 0) { /* ignore */ }
  _exit(44);
}

inline int main_(int argc, char** argv) {
  const char* only_scn = nullptr;
  long long only_case = -1;
  unsigned shard = 0, nshards = 1;
  bool thorough = false;
  double max_s = 1e9;
  double scale = 1.0;
  std::set<std::string> skip;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char* {
      if (i + 1 >= argc) broken("missing value for %s", a.c_str());
      return argv[++i];
    };
    if (a == "--seed") ctx().seed = strtoull(val(), nullptr, 10);
    else if (a == "--shard") shard = static_cast<unsigned>(atoi(val()));
    else if (a == "--nshards") nshards = static_cast<unsigned>(atoi(val()));
    else if (a == "--scenario") only_scn = val();
    else if (a == "--case") only_case = atoll(val());
    else if (a == "--thorough") thorough = true;
    else if (a == "--progress") ctx().fd = open(val(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    else if (a == "--max-seconds") max_s = atof(val());
    else if (a == "--scale") scale = atof(val());
    else if (a == "--skip") skip.insert(val());
    else if (a == "--verbose") ctx().verbose = true;
    else if (a == "--list") {
      for (auto& s : scenarios()) printf("%s %u %u\n", s.name, s.quick_cases, s.thorough_cases);
      return 0;
    } else broken("unknown argument %s", a.c_str());
  }
  signal(SIGABRT, on_abort);
  signal(SIGPROF, on_hang);
  double t0 = now();
  uint64_t done = 0, planned = 0;
  bool truncated = false;
  std::map<std::string, uint64_t> per;
  // Interleave scenarios so that truncation, if it ever happens, hits all.
  struct Cur { const Scenario* s; uint64_t i, n; };
  std::vector<Cur> cur;
  for (auto& s : scenarios()) {
    if (only_scn && strcmp(only_scn, s.name) != 0) continue;
    double nn = (thorough ? s.thorough_cases : s.quick_cases) * scale;
    uint64_t n = nn < 1 ? 1 : static_cast<uint64_t>(nn);
    cur.push_back({&s, 0, n});
  }
  if (only_scn && cur.empty()) broken("no scenario %s", only_scn);
  bool any = true;
  while (any && !truncated) {
    any = false;
    for (auto& c : cur) {
      if (only_case >= 0) { if (c.i != 0) continue; c.i = static_cast<uint64_t>(only_case); c.n = c.i + 1; }
      if (c.i >= c.n) continue;
      any = true;
      uint64_t i = c.i++;
      if (only_case < 0 && (i + hash_str(c.s->name)) % nshards != shard) continue;
      if (only_case >= 0 && c.n == 0) continue;
      if (!skip.empty() && skip.count(std::string(c.s->name) + ":" + std::to_string(i))) continue;
      ++planned;
      if (now() - t0 > max_s) { truncated = true; break; }
      set_case(*c.s, i);
      Case k{c.s->name, i, mix(ctx().seed ^ mix(hash_str(c.s->name) ^ mix(i))),
             thorough ? 4u : 1u, Rng(0)};
      k.rng = Rng(k.seed);
      c.s->fn(k);
      ++done;
      ++per[c.s->name];
    }
    if (only_case >= 0) break;
  }
  {
    itimerval off{};
    setitimer(ITIMER_PROF, &off, nullptr);
  }
  std::string out = "RESULT {\"done\":" + std::to_string(done) +
                    ",\"truncated\":" + (truncated ? "true" : "false") + ",\"counters\":{";
  bool first = true;
  for (auto& [k, v] : counters().n) {
    out += std::string(first ? "" : ",") + "\"" + json_escape(k) + "\":" + std::to_string(v);
    first = false;
  }
  out += "},\"per_scenario\":{";
  first = true;
  for (auto& [k, v] : per) {
    out += std::string(first ? "" : ",") + "\"" + json_escape(k) + "\":" + std::to_string(v);
    first = false;
  }
  out += "},\"samples\":[";
  first = true;
  for (auto& s : counters().samples) {
    out += std::string(first ? "" : ",") + "\"" + json_escape(s) + "\"";
    first = false;
  }
  out += "],\"states\":[";
  first = true;
  size_t k = 0;
  for (auto h : counters().states) {
    if (++k > 200000) break;
    out += std::string(first ? "" : ",") + std::to_string(h & 0xffffffffffffULL);
    first = false;
  }
  out += "]}";
  puts(out.c_str());
  fflush(stdout);
  return 0;
}

}  // namespace vh
