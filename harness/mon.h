// Monitoring runtime shared by every harness: seeded randomness, violation
// reporting, coverage accounting and a watchdog that tells a confirmed hang
// from a slow machine. Independent of the code under test.
#ifndef VERIF_MON_H
#define VERIF_MON_H

#include <dirent.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif

namespace mon {

// --------------------------------------------------------------------------
// Randomness
// --------------------------------------------------------------------------
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t hash(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  auto c = reinterpret_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) {
    h = (h ^ c[i]) * 0x100000001b3ull;
  }
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) {
  return hash(s.data(), s.size(), h);
}
inline uint64_t combine(uint64_t a, uint64_t b) { return mix(a ^ (b * 0x9e3779b97f4a7c15ull)); }

class Rng {
 public:
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    return mix(s);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  // [a, b]
  int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
  bool chance(int percent) { return int(below(100)) < percent; }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
  Rng fork() { return Rng(next()); }

 private:
  uint64_t s;
};

// --------------------------------------------------------------------------
// Options
// --------------------------------------------------------------------------
struct Options {
  uint64_t seed = 1;
  int shard = 0;
  uint64_t iters = 0;     // number of cases; 0 = harness default
  int64_t only = -1;      // run only this case
  std::string mode;       // workload selection
  std::string statsFile;  // where to write coverage
  std::string tmp;        // scratch directory
  int perturb = 0;        // 0..100: intensity of injected scheduling delays
  bool thorough = false;
};

struct State {
  Options opt;
  std::string name;
  std::mutex mutex;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> maxima;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  std::atomic<uint64_t> evals{0};
  std::atomic<uint64_t> progress{0};
  std::atomic<int64_t> currentCase{-1};
  std::atomic<uint64_t> caseSalt{0};  // differs from case to case
  std::string caseDesc;
  std::atomic<bool> done{false};
  std::atomic<bool> watchdogPaused{false};
  int argc = 0;
  char** argv = nullptr;
};
inline State& st() {
  static State* s = new State();  // never destroyed
  return *s;
}
inline const Options& opt() { return st().opt; }

inline void progress() { st().progress.fetch_add(1, std::memory_order_relaxed); }

inline void count(const char* name, uint64_t n = 1) {
  std::unique_lock<std::mutex> l(st().mutex);
  st().counters[name] += n;
}
inline void maximum(const char* name, uint64_t n) {
  std::unique_lock<std::mutex> l(st().mutex);
  auto& m = st().maxima[name];
  if (n > m) {
    m = n;
  }
}
// A non-trivial, distinct observation.
inline void cover(uint64_t h) {
  std::unique_lock<std::mutex> l(st().mutex);
  if (st().hashes.size() < 2000000) {
    st().hashes.insert(h);
  }
}
inline void sample(const std::string& s) {
  std::unique_lock<std::mutex> l(st().mutex);
  if (st().samples.size() < 6) {
    st().samples.push_back(s.substr(0, 600));
  }
}

// --------------------------------------------------------------------------
// Violations
// --------------------------------------------------------------------------
inline void vreport(const char* kind, const std::string& text) {
  fflush(stdout);
  fprintf(stderr, "MONITOR-%s: %s\n", kind, text.c_str());
  fprintf(stderr, "MONITOR-CASE: seed=%llu shard=%d mode=%s case=%lld %s\n",
          (unsigned long long)opt().seed, opt().shard, opt().mode.c_str(),
          (long long)st().currentCase.load(), st().caseDesc.c_str());
  fflush(stderr);
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
  va_list a;
  va_start(a, f);
  va_list b;
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  va_end(a);
  std::string s(size_t(n) + 1, 0);
  vsnprintf(&s[0], s.size(), f, b);
  va_end(b);
  s.resize(size_t(n));
  return s;
}
// A violation of the property. Ends the process at once with status 1.
[[noreturn]] inline void violation(const std::string& text) {
  static std::mutex* once = new std::mutex();
  once->lock();  // never released: one report per process
  vreport("VIOLATION", text);
  _exit(1);
}
// The harness could not do its work (no free port, ...). Not a violation.
[[noreturn]] inline void inconclusive(const std::string& text) {
  vreport("INCONCLUSIVE", text);
  _exit(3);
}
#define CHECK(cond, ...)                                                        \
  do {                                                                          \
    if (!(cond)) {                                                              \
      ::mon::violation(::mon::fmt(__VA_ARGS__) + "   [" #cond "] " +            \
                       std::string(__FILE__) + ":" + std::to_string(__LINE__)); \
    }                                                                           \
  } while (0)

inline std::string show(const std::string& s, size_t max = 200) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c == '\\') {
      o += "\\\\";
    } else if (c >= 32 && c < 127) {
      o += char(c);
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
  }
  if (s.size() > max) {
    o += fmt("...(%zu bytes)", s.size());
  }
  return o;
}

// --------------------------------------------------------------------------
// Threads of this process, from the kernel
// --------------------------------------------------------------------------
struct TaskInfo {
  int tid;
  char state;
  uint64_t cpu;  // clock ticks
};
inline std::vector<TaskInfo> tasks() {
  std::vector<TaskInfo> out;
  DIR* d = opendir("/proc/self/task");
  if (!d) {
    return out;
  }
  while (auto e = readdir(d)) {
    int tid = atoi(e->d_name);
    if (tid <= 0) {
      continue;
    }
    char path[64];
    snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
    FILE* f = fopen(path, "r");
    if (!f) {
      continue;
    }
    char buf[1024];
    size_t n = fread(buf, 1, sizeof(buf) - 1, f);
    fclose(f);
    buf[n] = 0;
    char* p = strrchr(buf, ')');
    if (!p) {
      continue;
    }
    TaskInfo t;
    t.tid = tid;
    unsigned long long ut = 0, sy = 0;
    char state = '?';
    sscanf(p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &ut, &sy);
    t.state = state;
    t.cpu = ut + sy;
    out.push_back(t);
  }
  closedir(d);
  return out;
}
inline size_t numThreads() { return tasks().size(); }
inline size_t numFds() {
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (auto e = readdir(d)) {
      if (e->d_name[0] != '.') {
        n++;
      }
    }
    closedir(d);
  }
  return n - 1;  // the directory itself
}

// Marks the calling thread as one that only polls: the watchdog does not take
// its wake-ups for activity.
inline std::mutex& pollMutex() {
  static std::mutex* m = new std::mutex();
  return *m;
}
inline std::multiset<int>& pollers() {
  static std::multiset<int>* s = new std::multiset<int>();
  return *s;
}
inline int selfTid() {
  static thread_local int tid = 0;
  if (!tid) {
    tid = int(syscall(SYS_gettid));
  }
  return tid;
}
struct Polling {
  Polling() {
    std::unique_lock<std::mutex> l(pollMutex());
    pollers().insert(selfTid());
  }
  ~Polling() {
    std::unique_lock<std::mutex> l(pollMutex());
    pollers().erase(pollers().find(selfTid()));
  }
};
inline bool isPolling(int tid) {
  std::unique_lock<std::mutex> l(pollMutex());
  return pollers().count(tid) > 0;
}

inline double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
inline double cpuNow() {
  rusage r;
  getrusage(RUSAGE_SELF, &r);
  return double(r.ru_utime.tv_sec + r.ru_stime.tv_sec) + 1e-6 * double(r.ru_utime.tv_usec + r.ru_stime.tv_usec);
}

// --------------------------------------------------------------------------
// Watchdog. A hang is reported only when it is confirmed: the workload made no
// progress for `stall` seconds and, over repeated samples, no thread but this
// one was runnable or used any CPU (deadlock / lost wake-up); or the process
// burnt `livelockCpu` seconds of CPU without any progress (livelock).
// --------------------------------------------------------------------------
}  // namespace mon
extern "C" void verif_perturb_pause(int) __attribute__((weak));
namespace mon {
// No injected delays while one of these lives: for cases whose point is size.
struct Undisturbed {
  static std::atomic<int>& depth() {
    static std::atomic<int> d{0};
    return d;
  }
  Undisturbed() {
    depth()++;
    if (verif_perturb_pause) {
      verif_perturb_pause(1);
    }
  }
  ~Undisturbed() {
    if (--depth() == 0 && verif_perturb_pause) {
      verif_perturb_pause(0);
    }
  }
};

inline void startWatchdog(double stall = 20, double livelockCpu = 45) {
  std::thread([=] {
    int self = selfTid();
    uint64_t last = st().progress.load();
    double since = now(), cpuSince = cpuNow();
    while (!st().done) {
      usleep(200000);
      auto p = st().progress.load();
      if (p != last || st().watchdogPaused) {
        last = p;
        since = now();
        cpuSince = cpuNow();
        if (verif_perturb_pause && Undisturbed::depth() == 0) {
          verif_perturb_pause(0);
        }
        continue;
      }
      if (verif_perturb_pause && now() - since > 4) {
        verif_perturb_pause(1);
      }
      if (cpuNow() - cpuSince > livelockCpu) {
        violation(fmt("livelock: %.0f s of CPU used without progress", cpuNow() - cpuSince));
      }
      if (now() - since < stall) {
        continue;
      }
      bool asleep = true;
      std::map<int, uint64_t> cpu;
      for (int i = 0; i < 15 && asleep; i++) {
        for (auto& t : tasks()) {
          if (t.tid == self || isPolling(t.tid)) {
            continue;
          }
          auto it = cpu.find(t.tid);
          if ((t.state != 'S') || (it != cpu.end() && it->second != t.cpu)) {
            asleep = false;
          }
          cpu[t.tid] = t.cpu;
        }
        usleep(200000);
        if (st().progress.load() != last) {
          asleep = false;
        }
      }
      if (asleep && !st().done && !st().watchdogPaused && st().progress.load() == last) {
        violation(fmt("hang: no progress for %.0f s and all %zu threads asleep", now() - since,
                      cpu.size()));
      }
    }
  }).detach();
}

// --------------------------------------------------------------------------
// Main
// --------------------------------------------------------------------------
inline std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

inline void init(int argc, char** argv, const char* name) {
  auto& s = st();
  s.name = name;
  s.argc = argc;
  s.argv = argv;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") {
      s.opt.seed = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--shard") {
      s.opt.shard = atoi(val().c_str());
    } else if (a == "--iters") {
      s.opt.iters = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--case") {
      s.opt.only = strtoll(val().c_str(), nullptr, 10);
    } else if (a == "--mode") {
      s.opt.mode = val();
    } else if (a == "--stats") {
      s.opt.statsFile = val();
    } else if (a == "--tmp") {
      s.opt.tmp = val();
    } else if (a == "--perturb") {
      s.opt.perturb = atoi(val().c_str());
    } else if (a == "--thorough") {
      s.opt.thorough = true;
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
}

// Makes the program's locale one that writes 1.234.567,89.
inline void foreignLocale() {
  struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
  };
  std::locale::global(std::locale(std::locale::classic(), new Punct));
  count("processes_in_a_foreign_locale");
}

inline Rng caseRng(uint64_t i) {
  return Rng(combine(combine(opt().seed, uint64_t(opt().shard) + 1),
                     combine(i + 1, hash(opt().mode))));
}

// Runs f(i, rng) for every case of this shard.
inline void cases(uint64_t n, const std::function<void(uint64_t, Rng&)>& f) {
  if (opt().iters) {
    n = opt().iters;
  }
  for (uint64_t i = 0; i < n; i++) {
    if (opt().only >= 0 && int64_t(i) != opt().only) {
      continue;
    }
    st().currentCase = int64_t(i);
    st().caseDesc.clear();
    Rng r = caseRng(i);
    st().caseSalt.store(Rng(r).next() | 1, std::memory_order_relaxed);
    f(i, r);
    st().evals++;
    progress();
  }
}
inline uint64_t caseSalt() { return st().caseSalt.load(std::memory_order_relaxed); }
inline void desc(const std::string& d) { st().caseDesc = d; }

inline int finish() {
  auto& s = st();
  s.done = true;
  std::unique_lock<std::mutex> l(s.mutex);
  if (!s.opt.statsFile.empty()) {
    if (FILE* f = fopen(s.opt.statsFile.c_str(), "w")) {
      fprintf(f, "{\"evaluations\": %llu, \"counters\": {", (unsigned long long)s.evals.load());
      bool first = true;
      for (auto& c : s.counters) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(c.first).c_str(),
                (unsigned long long)c.second);
        first = false;
      }
      fprintf(f, "}, \"maxima\": {");
      first = true;
      for (auto& c : s.maxima) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(c.first).c_str(),
                (unsigned long long)c.second);
        first = false;
      }
      fprintf(f, "}, \"samples\": [");
      first = true;
      for (auto& c : s.samples) {
        fprintf(f, "%s%s", first ? "" : ", ", jsonStr(c).c_str());
        first = false;
      }
      fprintf(f, "]}\n");
      fclose(f);
    }
    if (FILE* f = fopen((s.opt.statsFile + ".hashes").c_str(), "wb")) {
      std::vector<uint64_t> v(s.hashes.begin(), s.hashes.end());
      fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
  }
  printf("MONITOR-DONE %s evaluations=%llu distinct=%zu\n", s.name.c_str(),
         (unsigned long long)s.evals.load(), s.hashes.size());
  return 0;
}

// --------------------------------------------------------------------------
// Small synchronisation helpers of the harness itself
// --------------------------------------------------------------------------
class Barrier {
 public:
  explicit Barrier(int n) : n(n) {}
  void arrive() {
    std::unique_lock<std::mutex> l(m);
    if (++c >= n) {
      cv.notify_all();
    } else {
      cv.wait(l, [&] { return c >= n; });
    }
  }

 private:
  std::mutex m;
  std::condition_variable cv;
  int n, c = 0;
};

class Gate {
 public:
  void open() {
    std::unique_lock<std::mutex> l(m);
    o = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return o; });
  }
  bool waitFor(double s) {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::microseconds(int64_t(s * 1e6)), [&] { return o; });
  }
  bool isOpen() {
    std::unique_lock<std::mutex> l(m);
    return o;
  }

 private:
  std::mutex m;
  std::condition_variable cv;
  bool o = false;
};

// Blocks (under the watchdog) until the condition holds.
inline void waitUntil(const std::function<bool()>& f) {
  Polling p;
  for (int i = 0; !f(); i++) {
    usleep(i < 100 ? 100 : 2000);
  }
}

// Joins all threads on destruction.
struct Threads {
  std::vector<std::thread> v;
  template <typename F>
  void go(F&& f) { v.emplace_back(std::forward<F>(f)); }
  void join() {
    for (auto& t : v) {
      t.join();
    }
    v.clear();
  }
  ~Threads() { join(); }
};

// Random delay of a workload thread.
inline void jitter(Rng& r, int percent = 30) {
  if (!r.chance(percent)) {
    return;
  }
  switch (r.below(4)) {
    case 0:
      std::this_thread::yield();
      break;
    case 1:
      usleep(useconds_t(r.below(200)));
      break;
    case 2: {
      volatile int x = 0;
      for (uint64_t i = r.below(3000); i > 0; i--) {
        x = x + 1;
      }
      break;
    }
    default:
      usleep(useconds_t(r.below(1200)));
  }
}

}  // namespace mon

#endif
