// Schedule perturbation: linked with -Wl,--wrap=... so that every lock, unlock
// and notification in the code under test (and in the harness) may be delayed.
// No source change is needed in the code under test. Delays are drawn from a
// per-thread generator; intensity comes from VERIF_PERTURB (0..100).
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <atomic>
#include <mutex>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define NOSAN __attribute__((no_sanitize("thread")))
#endif
#endif
#ifndef NOSAN
#define NOSAN
#endif

namespace {
std::atomic<uint64_t> threadIds{1};
std::atomic<int> intensity{-1};
std::atomic<uint64_t> baseSeed{1};
thread_local uint64_t rng = 0;

NOSAN int level() {
  int i = intensity.load(std::memory_order_relaxed);
  if (i < 0) {
    const char* e = getenv("VERIF_PERTURB");
    i = e ? atoi(e) : 0;
    const char* s = getenv("VERIF_PERTURB_SEED");
    baseSeed.store(s ? strtoull(s, nullptr, 10) : 1, std::memory_order_relaxed);
    intensity.store(i, std::memory_order_relaxed);
  }
  return i;
}

std::atomic<bool> paused{false};

NOSAN uint64_t draw() {
  if (rng == 0) {
    rng = (threadIds.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull) ^
          (baseSeed.load(std::memory_order_relaxed) * 0xbf58476d1ce4e5b9ull) | 1;
  }
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng >> 11;
}

// A wait on a condition may return without a notification at any time; the
// standard allows it, and so it is made to happen.
NOSAN bool wakeSpuriously() {
  int p = level();
  return p != 0 && !paused.load(std::memory_order_relaxed) && draw() % 1000 < uint64_t(p) * 3;
}

NOSAN void perturb() {
  int p = level();
  if (p == 0 || paused.load(std::memory_order_relaxed)) {
    return;
  }
  uint64_t x = draw();
  // p is in units of 0.1 %.
  if (x % 1000 >= uint64_t(p)) {
    return;
  }
  switch ((x / 1000) % 4) {
    case 0:
    case 1:
      sched_yield();
      break;
    case 2:
      usleep(useconds_t((x / 4000) % 60));
      break;
    default:
      usleep(useconds_t((x / 4000) % 400));
  }
}
}  // namespace

extern "C" {
// The watchdog stops the delays when there is no progress, so that it can tell a livelock from waiting.
void verif_perturb_pause(int p) { paused.store(p != 0, std::memory_order_relaxed); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  perturb();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  perturb();
  return r;
}
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) {
  perturb();
  __real__ZNSt18condition_variable10notify_allEv(c);
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
  perturb();
  __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>& l) {
  if (wakeSpuriously()) {
    l.unlock();
    sched_yield();
    l.lock();
    return;
  }
  __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (wakeSpuriously()) {
    __wrap_pthread_mutex_unlock(m);
    sched_yield();
    __wrap_pthread_mutex_lock(m);
    return 0;
  }
  return __real_pthread_cond_clockwait(c, m, k, t);
}
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (wakeSpuriously()) {
    __wrap_pthread_mutex_unlock(m);
    sched_yield();
    __wrap_pthread_mutex_lock(m);
    return 0;
  }
  return __real_pthread_cond_timedwait(c, m, t);
}
}
