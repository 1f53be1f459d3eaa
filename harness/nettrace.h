// Link-time interposition on the socket calls of the code under test: injects
// the failures an operating system may produce, and follows every descriptor.
// Link with -Wl,--wrap=send,... (see NETWRAPS in lib/specs.py).
#ifndef VERIF_NETTRACE_H
#define VERIF_NETTRACE_H

#include "mon.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>

#include <set>

extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
int __real_accept(int, sockaddr*, socklen_t*);
int __real_accept4(int, sockaddr*, socklen_t*, int);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_socket(int, int, int);
int __real_close(int);
int __real_shutdown(int, int);
int __real_poll(pollfd*, nfds_t, int);
}

namespace nettrace {

struct Faults {
  std::atomic<int> shortSend{0};     // percent of sends cut short
  std::atomic<int> shortRecv{0};     // percent of receives cut short
  std::atomic<int> eintr{0};         // percent of calls interrupted before they did anything
  std::atomic<int> eintrConnect{0};  // percent of connects interrupted while under way
  std::atomic<int> failConnect{0};   // percent of connects that fail at once
  std::atomic<int> abortAccept{0};   // percent of accepts that find an aborted connection
  std::atomic<int64_t> sendBudget{-1};  // after so many bytes sending fails with ECONNRESET
  std::atomic<int64_t> recvBudget{-1};
  std::atomic<bool> squat{false};    // occupy closed descriptor numbers
};
inline Faults& faults() {
  static Faults* f = new Faults();
  return *f;
}
struct Trace {
  std::mutex m;
  std::set<int> live;       // opened by socket()/accept() and not closed
  std::set<int> squatted;   // numbers given back by the code under test, now the harness's
  std::vector<int> extra;
  uint64_t seed = 1;
  std::atomic<uint64_t> n{0};
  std::atomic<uint64_t> injected{0}, calls{0}, opened{0}, closed{0};
  std::atomic<bool> sendFailed{false};
};
inline Trace& tr() {
  static Trace* t = new Trace();
  return *t;
}
inline uint64_t rnd() { return mon::mix(tr().seed + tr().n.fetch_add(1) * 0x9e3779b97f4a7c15ull); }
inline bool hit(int percent) { return percent > 0 && int(rnd() % 100) < percent; }
inline void touch(int fd, const char* what) {
  tr().calls++;
  if (fd < 0) {
    return;
  }
  std::unique_lock<std::mutex> l(tr().m);
  if (tr().squatted.count(fd)) {
    l.unlock();
    mon::violation(mon::fmt("%s on descriptor %d, which was already closed and belongs to someone else now", what, fd));
  }
}
// Resets the faults; call between cases, with all threads of a case joined.
inline void quiet() {
  auto& f = faults();
  f.shortSend = f.shortRecv = f.eintr = f.eintrConnect = f.failConnect = f.abortAccept = 0;
  f.sendBudget = f.recvBudget = -1;
  f.squat = false;
  std::unique_lock<std::mutex> l(tr().m);
  for (int fd : tr().squatted) {
    __real_close(fd);
  }
  tr().squatted.clear();
}
inline size_t live() {
  std::unique_lock<std::mutex> l(tr().m);
  return tr().live.size();
}

}  // namespace nettrace

#ifdef NETTRACE_MAIN
extern "C" {
ssize_t __wrap_send(int s, const void* b, size_t n, int f) {
  using namespace nettrace;
  touch(s, "send");
  if (hit(faults().eintr)) {
    tr().injected++;
    errno = EINTR;
    return -1;
  }
  int64_t budget = faults().sendBudget;
  if (budget >= 0) {
    if (budget == 0) {
      tr().injected++;
      tr().sendFailed = true;
      errno = (rnd() & 1) ? ECONNRESET : EPIPE;
      return -1;
    }
    n = std::min<size_t>(n, size_t(budget));
  }
  if (n > 1 && hit(faults().shortSend)) {
    tr().injected++;
    n = 1 + rnd() % (n - 1);
  }
  ssize_t r = __real_send(s, b, n, f);
  if (budget >= 0 && r > 0) {
    faults().sendBudget -= r;
  }
  return r;
}
ssize_t __wrap_recv(int s, void* b, size_t n, int f) {
  using namespace nettrace;
  touch(s, "recv");
  if (hit(faults().eintr)) {
    tr().injected++;
    errno = EINTR;
    return -1;
  }
  if (n > 1 && hit(faults().shortRecv)) {
    tr().injected++;
    n = 1 + rnd() % std::min<size_t>(n - 1, 4000);
  }
  return __real_recv(s, b, n, f);
}
static int nettraceOpened(int r) {
  using namespace nettrace;
  if (r >= 0) {
    tr().opened++;
    std::unique_lock<std::mutex> l(tr().m);
    tr().live.insert(r);
  }
  return r;
}
int __wrap_accept4(int s, sockaddr* a, socklen_t* l, int f) {
  using namespace nettrace;
  touch(s, "accept");
  if (hit(faults().eintr)) {
    tr().injected++;
    errno = EINTR;
    return -1;
  }
  if (hit(faults().abortAccept)) {
    tr().injected++;
    errno = ECONNABORTED;
    return -1;
  }
  return nettraceOpened(__real_accept4(s, a, l, f));
}
int __wrap_accept(int s, sockaddr* a, socklen_t* l) { return __wrap_accept4(s, a, l, 0); }
int __wrap_connect(int s, const sockaddr* a, socklen_t n) {
  using namespace nettrace;
  touch(s, "connect");
  if (hit(faults().failConnect)) {
    static const int es[] = {ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EACCES, ETIMEDOUT, ENOBUFS};
    tr().injected++;
    errno = es[rnd() % 7];
    return -1;
  }
  int r = __real_connect(s, a, n);
  // Interrupted while under way: the connection is made all the same.
  if (r == 0 && hit(faults().eintrConnect)) {
    tr().injected++;
    errno = EINTR;
    return -1;
  }
  return r;
}
int __wrap_socket(int d, int t, int p) {
  nettrace::tr().calls++;
  return nettraceOpened(__real_socket(d, t, p));
}
int __wrap_shutdown(int s, int h) {
  nettrace::touch(s, "shutdown");
  return __real_shutdown(s, h);
}
int __wrap_poll(pollfd* p, nfds_t n, int t) {
  using namespace nettrace;
  for (nfds_t i = 0; i < n; i++) {
    touch(p[i].fd, "poll");
  }
  if (hit(faults().eintr)) {
    tr().injected++;
    errno = EINTR;
    return -1;
  }
  return __real_poll(p, n, t);
}
int __wrap_close(int s) {
  using namespace nettrace;
  touch(s, "close");
  bool mine;
  {
    std::unique_lock<std::mutex> l(tr().m);
    mine = tr().live.erase(s) > 0;
    if (mine) {
      tr().closed++;
    }
  }
  int r = __real_close(s);
  if (r != 0 && errno == EBADF) {
    mon::violation(mon::fmt("close of descriptor %d, which is not open", s));
  }
  if (mine && faults().squat) {
    int q = open("/dev/null", O_RDWR | O_CLOEXEC);
    if (q >= 0) {
      std::unique_lock<std::mutex> l(tr().m);
      if (tr().squatted.size() < 64) {
        tr().squatted.insert(q);
        return r;
      }
      l.unlock();
      __real_close(q);
    }
  }
  return r;
}
}
#endif

#endif
