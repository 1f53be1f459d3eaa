// C19: the TCP server hands over each connection once and stops cleanly.
#define NETTRACE_MAIN
#include "nettrace.h"
#include "netutil.h"

#include <pthread.h>
#include <signal.h>

using mon::Rng;
using Stream = std::shared_ptr<dap::ReaderWriter>;
using Server = dap::net::Server;

namespace {

std::atomic<uint64_t> signals{0};
void onSignal(int) { signals.fetch_add(1, std::memory_order_relaxed); }

// One start..stop period of a server.
struct Epoch {
  std::atomic<bool> over{false};
  std::atomic<int> running{0};
  std::atomic<int> callbacks{0};
  std::atomic<int> errors{0};
  std::mutex m;
  std::vector<Stream> streams;
};

int delayMax = 0;
Server::OnConnect onConnect(const std::shared_ptr<Epoch>& e, uint64_t seed) {
  auto n = std::make_shared<std::atomic<uint64_t>>(seed);
  int dm = delayMax;
  return [e, n, dm](const Stream& s) {
    CHECK(!e->over, "a connect callback runs after stop returned");
    CHECK(e->running.fetch_add(1) == 0, "two connect callbacks run at the same time");
    CHECK(bool(s), "the connect callback got no stream");
    Rng q(n->fetch_add(1));
    if (dm) {
      usleep(useconds_t(q.below(uint64_t(dm))));
    }
    {
      std::unique_lock<std::mutex> l(e->m);
      e->streams.push_back(s);
    }
    e->callbacks++;
    CHECK(!e->over, "stop returned while a connect callback was running");
    e->running--;
    mon::progress();
  };
}
Server::OnError onError(const std::shared_ptr<Epoch>& e) {
  return [e](const char* msg) {
    CHECK(!e->over, "an error callback runs after stop returned");
    CHECK(msg && *msg, "an error without a text");
    e->errors++;
  };
}
void ended(const std::shared_ptr<Epoch>& e) {
  CHECK(e->running == 0, "stop returned while a connect callback was running");
  e->over = true;
}

// A client that neither faults nor signals disturb.
int rawConnectRetry(int port) {
  sigset_t set, old;
  sigemptyset(&set);
  sigaddset(&set, SIGUSR1);
  pthread_sigmask(SIG_BLOCK, &set, &old);
  int fd = __real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(uint16_t(port));
  if (__real_connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
    __real_close(fd);
    fd = -1;
  }
  pthread_sigmask(SIG_SETMASK, &old, nullptr);
  return fd;
}
bool bindable(int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int one = 1;
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(uint16_t(port));
  bool ok = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && listen(fd, 1) == 0;
  close(fd);
  return ok;
}
size_t readAll(const Stream& s, char* b, size_t n) {
  size_t k = 0;
  while (k < n) {
    size_t x = s->read(b + k, n - k);
    if (x == 0) {
      break;
    }
    k += x;
  }
  return k;
}
size_t rawReadAll(int fd, char* b, size_t n) {
  size_t k = 0;
  while (k < n) {
    ssize_t x = __real_recv(fd, b + k, n - k, 0);
    if (x < 0 && errno == EINTR) {
      continue;
    }
    if (x <= 0) {
      break;
    }
    k += size_t(x);
  }
  return k;
}

const char* somewhere(Rng& r) {
  static const char* a[] = {"127.0.0.1", "localhost", "0.0.0.0"};
  return a[r.below(3)];
}
bool startOn(Rng& r, Server* s, int port, const std::shared_ptr<Epoch>& e) {
  if (r.chance(50)) {
    return s->start(port, onConnect(e, r.next()), onError(e));
  }
  return s->start(somewhere(r), port, onConnect(e, r.next()), onError(e));
}

// Starts on a free port, restarting the search when a port is taken.
int startAnywhere(Rng& r, Server* s, std::shared_ptr<Epoch>* e) {
  for (int k = 0; k < 200; k++) {
    auto n = std::make_shared<Epoch>();
    int port = netutil::randomPort(r);
    if (startOn(r, s, port, n)) {
      *e = n;
      return port;
    }
    CHECK(n->errors >= 1, "start failed without reporting an error");
  }
  mon::inconclusive("no free port found");
}

void setFaults(Rng& r) {
  auto& f = nettrace::faults();
  nettrace::tr().seed = r.next();
  f.squat = r.chance(50);
  switch (r.below(4)) {
    case 0:
      f.eintr = 30;
      break;
    case 1:
      f.abortAccept = 30;
      f.eintr = 10;
      break;
    default:
      break;
  }
  static const int d[] = {0, 0, 300, 3000};
  delayMax = d[r.below(4)];
}

// Every client gets exactly one callback, whose stream leads to it.
void clients(Rng& r) {
  setFaults(r);
  auto server = Server::create();
  std::shared_ptr<Epoch> e;
  int port = startAnywhere(r, server.get(), &e);
  int threads = r.chance(70) ? 1 : int(r.range(2, 3)), each = int(r.range(1, threads == 1 ? 8 : 3));
  bool useSignals = r.chance(30);
  mon::desc(mon::fmt("%d x %d clients, callback delay %d", threads, each, delayMax));
  struct Client {
    int raw = -1;
    Stream s;
    uint32_t id;
  };
  std::vector<std::vector<Client>> all(static_cast<size_t>(threads));
  std::atomic<bool> stopPoking{false};
  std::thread poker;
  if (useSignals) {
    // Real signals, delivered to any thread of the process that takes them.
    poker = std::thread([&] {
      mon::Polling p;
      sigset_t set;
      sigemptyset(&set);
      sigaddset(&set, SIGUSR1);
      pthread_sigmask(SIG_BLOCK, &set, nullptr);
      int self = mon::selfTid();
      while (!stopPoking) {
        for (auto& t : mon::tasks()) {
          if (t.tid != self) {
            syscall(SYS_tgkill, getpid(), t.tid, SIGUSR1);
          }
        }
        usleep(500);
      }
    });
  }
  {
    mon::Threads th;
    for (int t = 0; t < threads; t++) {
      uint64_t seed = r.next();
      th.go([&, t, seed] {
        Rng q(seed);
        for (int i = 0; i < each; i++) {
          Client c;
          c.id = uint32_t(t * 1000 + i);
          uint32_t id = c.id;
          if (q.chance(50)) {
            c.raw = rawConnectRetry(port);
            CHECK(c.raw >= 0, "cannot connect to a started server");
            CHECK(__real_send(c.raw, &id, 4, MSG_NOSIGNAL) == 4, "the server dropped a connection");
          } else {
            c.s = dap::net::connect(q.chance(50) ? "localhost" : "127.0.0.1", port, q.chance(50) ? 0 : 30000);
            CHECK(bool(c.s), "cannot connect to a started server");
            CHECK(c.s->write(&id, 4), "a write to a started server failed");
          }
          all[size_t(t)].push_back(c);
          mon::progress();
        }
      });
    }
    th.join();
  }
  size_t total = 0;
  for (auto& v : all) {
    total += v.size();
  }
  mon::waitUntil([&] { return size_t(e->callbacks.load()) >= total; });
  stopPoking = true;
  if (poker.joinable()) {
    poker.join();
  }
  // Who is at the other end of each stream?
  std::vector<Stream> streams;
  {
    std::unique_lock<std::mutex> l(e->m);
    streams = e->streams;
    e->streams.clear();
  }
  std::map<uint32_t, Stream> byId;
  for (auto& s : streams) {
    uint32_t id = 0;
    size_t k = readAll(s, reinterpret_cast<char*>(&id), 4);
    CHECK(k == 4, "the stream of a connection ended early");
    CHECK(byId.emplace(id, s).second, "client %u was handed over twice", id);
  }
  bool stopFirst = r.chance(50), destroy = r.chance(50);
  auto end = [&] {
    if (destroy) {
      server.reset();
    } else {
      server->stop();
    }
    ended(e);
  };
  if (stopFirst) {
    end();
  }
  for (auto& v : all) {
    for (auto& c : v) {
      CHECK(byId.count(c.id) == 1, "client %u was never handed over", c.id);
      // And back, through the stream of the callback.
      uint32_t x = c.id * 2654435761u, y = 0;
      CHECK(byId[c.id]->isOpen() && byId[c.id]->write(&x, 4), "the stream of an accepted connection does not work%s",
            stopFirst ? " after the server has stopped" : "");
      size_t k = c.s ? readAll(c.s, reinterpret_cast<char*>(&y), 4) : rawReadAll(c.raw, reinterpret_cast<char*>(&y), 4);
      CHECK(k == 4 && x == y, "the client got other bytes than its stream was given");
    }
  }
  if (!stopFirst) {
    end();
  }
  {
    CHECK(size_t(e->callbacks.load()) == total && byId.size() == total, "%d callbacks for %zu connections", e->callbacks.load(), total);
  }
  CHECK(e->errors == 0, "%d errors reported though nothing failed", e->errors.load());
  for (auto& v : all) {
    for (auto& c : v) {
      if (c.raw >= 0) {
        close(c.raw);
      }
    }
  }
  mon::count("connections", total);
  mon::cover(mon::combine(mon::combine(uint64_t(threads), uint64_t(each)), uint64_t(delayMax) * 8 + stopFirst * 4 + destroy * 2 + useSignals));
}

// Stopping (from several threads, or by destruction) while clients keep coming.
void stopUnderFire(Rng& r) {
  setFaults(r);
  auto server = Server::create();
  std::shared_ptr<Epoch> e;
  int port = startAnywhere(r, server.get(), &e);
  mon::desc("stop while clients connect");
  std::atomic<bool> stop{false};
  std::atomic<int> connects{0};
  mon::Threads th;
  int n = r.chance(70) ? 1 : 2;
  for (int t = 0; t < n; t++) {
    uint64_t seed = r.next();
    th.go([&, seed] {
      Rng q(seed);
      while (!stop) {
        mon::Polling p;
        int fd = rawConnectRetry(port);
        if (fd < 0) {
          if (stop) {
            break;
          }
          usleep(100);
          continue;
        }
        connects++;
        if (q.chance(30)) {
          linger lg = {1, 0};
          setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
        }
        if (q.chance(50)) {
          usleep(useconds_t(q.below(300)));
        }
        close(fd);
      }
    });
  }
  int rounds = int(r.range(1, 5));
  for (int i = 0; i < rounds; i++) {
    usleep(useconds_t(r.below(r.chance(20) ? 20000 : 2000)));
    bool again = i + 1 < rounds;
    auto next = std::make_shared<Epoch>();
    switch (again ? r.below(3) : 3) {
      case 0: {  // stop, then start
        server->stop();
        ended(e);
        bool ok = false;
        // A client of this process cannot hold the port, but the connections
        // still being torn down by the kernel may, for a moment.
        for (int k = 0; k < 400 && !ok; k++) {
          next = std::make_shared<Epoch>();
          ok = startOn(r, server.get(), port, next);
          if (!ok) {
            usleep(5000);
          }
        }
        CHECK(ok, "the port cannot be bound again after stop");
        break;
      }
      case 1: {  // start without stop
        bool ok = false;
        for (int k = 0; k < 400 && !ok; k++) {
          next = std::make_shared<Epoch>();
          ok = startOn(r, server.get(), port, next);
          // Whether or not it succeeded, the earlier period is over.
          ended(e);
          if (!ok) {
            usleep(5000);
          }
        }
        CHECK(ok, "the port cannot be bound again by a restart");
        break;
      }
      case 2: {  // stops from several threads at once
        mon::Threads st;
        int k = int(r.range(2, 4));
        for (int j = 0; j < k; j++) {
          st.go([&] {
            server->stop();
            CHECK(e->running == 0, "stop returned while a connect callback was running");
          });
        }
        st.join();
        ended(e);
        bool ok = false;
        for (int k2 = 0; k2 < 400 && !ok; k2++) {
          next = std::make_shared<Epoch>();
          ok = startOn(r, server.get(), port, next);
          if (!ok) {
            usleep(5000);
          }
        }
        CHECK(ok, "the port cannot be bound again after stop");
        break;
      }
      default:
        if (r.chance(50)) {
          server.reset();
        } else {
          server->stop();
        }
        ended(e);
    }
    mon::count("callbacks_under_fire", uint64_t(e->callbacks.load()));
    if (again) {
      e = next;
    }
    mon::count("periods");
    mon::progress();
  }
  if (server && r.chance(50)) {
    server->stop();  // once more: no effect
  }
  usleep(useconds_t(r.below(2000)));
  stop = true;
  th.join();
  server.reset();
  bool ok = false;
  for (int k = 0; k < 400 && !ok; k++) {
    ok = bindable(port);
    if (!ok) {
      usleep(5000);
    }
  }
  CHECK(ok, "the port is not free after the server has gone");
  mon::cover(mon::combine(uint64_t(rounds * 8 + n), uint64_t(connects.load())));
}

// A port that cannot be bound.
void busyPort(Rng& r) {
  setFaults(r);
  nettrace::faults().abortAccept = 0;
  int how = int(r.below(3));
  mon::desc(mon::fmt("busy port, way %d", how));
  auto other = Server::create();
  std::shared_ptr<Epoch> oe;
  int raw = -1, port = 0;
  const char* addr = "127.0.0.1";
  if (how == 0) {
    raw = netutil::rawListen(r, &port);
  } else if (how == 1) {
    port = startAnywhere(r, other.get(), &oe);
  } else {
    addr = "192.0.2.1";  // not an address of this machine
    port = netutil::randomPort(r);
  }
  auto server = Server::create();
  std::shared_ptr<Epoch> prior;
  if (r.chance(40)) {
    startAnywhere(r, server.get(), &prior);  // a period that the failing start ends
  }
  int tries = int(r.range(1, 3));
  for (int i = 0; i < tries; i++) {
    auto e = std::make_shared<Epoch>();
    double t0 = mon::now();
    bool ok = r.chance(50) && how != 2 ? server->start(port, onConnect(e, 1), onError(e))
                                       : server->start(addr, port, onConnect(e, 1), onError(e));
    CHECK(!ok, "start succeeded on a port that cannot be bound");
    CHECK(e->errors >= 1, "start failed without reporting an error");
    CHECK(mon::now() - t0 < 15, "start took %.1f s to fail", mon::now() - t0);
    if (r.chance(50)) {
      auto e2 = std::make_shared<Epoch>();
      // the callback-less form
      CHECK(!server->start(addr, port, onConnect(e2, 1)), "start succeeded on a port that cannot be bound");
    }
    if (r.chance(30)) {
      server->stop();
    }
  }
  if (prior) {
    ended(prior);
  }
  if (how == 1) {
    // The server that holds the port is unaffected.
    int fd = rawConnectRetry(port);
    CHECK(fd >= 0, "the server holding the port no longer accepts connections");
    mon::waitUntil([&] { return oe->callbacks.load() >= 1; });
    close(fd);
  }
  // The server that failed to start can be started elsewhere.
  if (r.chance(60)) {
    std::shared_ptr<Epoch> e;
    int p2 = startAnywhere(r, server.get(), &e);
    int fd = rawConnectRetry(p2);
    CHECK(fd >= 0, "cannot connect to a server that started after a failed start");
    mon::waitUntil([&] { return e->callbacks.load() == 1; });
    close(fd);
    if (r.chance(50)) {
      server->stop();
      ended(e);
    } else {
      server.reset();
      ended(e);
    }
  }
  if (raw >= 0) {
    close(raw);
  }
  server.reset();
  other.reset();
  mon::count("busy_ports");
  mon::cover(mon::combine(uint64_t(how), r.next()));
}

// Clients that cannot be served.
void noServer(Rng& r) {
  setFaults(r);
  int how = int(r.below(5));
  uint32_t timeout = r.chance(30) ? 0 : uint32_t(1 + r.below(150));
  if (how == 2 && timeout == 0) {
    timeout = 40;
  }
  mon::desc(mon::fmt("no server, way %d, timeout %u", how, timeout));
  int port = 0;
  int l = -1;
  std::vector<int> fill;
  if (how == 2) {
    // A full listen queue: nobody answers.
    l = netutil::rawListen(r, &port, 0);
    for (int i = 0; i < 40; i++) {
      int fd = __real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
      sockaddr_in a;
      memset(&a, 0, sizeof a);
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(uint16_t(port));
      int x = __real_connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
      fill.push_back(fd);
      if (x != 0) {
        pollfd pf = {fd, POLLOUT, 0};
        if (__real_poll(&pf, 1, 60) == 0) {
          break;  // this one is not answered any more
        }
      }
    }
  } else if (how >= 3) {
    // The system refuses to connect at all: no route, no port left, ...
    l = netutil::rawListen(r, &port);
    if (how == 3) {
      nettrace::faults().failConnect = 100;
    }
  } else {
    // A port that was just given up.
    l = netutil::rawListen(r, &port);
    close(l);
    l = -1;
  }
  // Signals, more often than the timeout: the waiting time is still bounded.
  std::atomic<bool> back{false};
  std::thread pester;
  if (how == 2 && r.chance(50)) {
    pid_t me = pid_t(syscall(SYS_gettid));
    auto every = useconds_t(r.range(300, int64_t(timeout) * 700));
    pester = std::thread([&back, me, every] {
      sigset_t set;
      sigemptyset(&set);
      sigaddset(&set, SIGUSR1);
      pthread_sigmask(SIG_BLOCK, &set, nullptr);
      for (double until = mon::now() + 18; !back && mon::now() < until;) {
        usleep(every);
        if (!back) {
          syscall(SYS_tgkill, getpid(), me, SIGUSR1);
        }
        mon::progress();
      }
    });
    mon::count("connects_under_signals");
  }
  double t0 = mon::now();
  auto s = dap::net::connect(how == 4 ? "255.255.255.255" : how == 1 ? "localhost" : "127.0.0.1", port, timeout);
  double dt = mon::now() - t0;
  back = true;
  if (pester.joinable()) {
    pester.join();
  }
  if (how == 2) {
    if (!s) {
      CHECK(dt < timeout / 1000.0 + 15, "connect with a timeout of %u ms gave up after %.1f s", timeout, dt);
      CHECK(dt >= timeout / 1000.0 - 0.005, "connect with a timeout of %u ms gave up after %.4f s", timeout, dt);
      mon::count("connect_timeouts");
    } else {
      // Only if the kernel really made the connection.
      CHECK(s->isOpen(), "connect returned a stream that is not open");
    }
  } else {
    CHECK(!s, "connect to a port that nobody serves returned a stream");
    CHECK(dt < 15, "connect to a port that nobody serves took %.1f s", dt);
    mon::count(how >= 3 ? "failed at once" : "refused");
  }
  for (int fd : fill) {
    __real_close(fd);
  }
  if (l >= 0) {
    close(l);
  }
  mon::cover(mon::combine(uint64_t(how), timeout));
}

// Start and stop in any order, with nobody connecting.
void startStop(Rng& r) {
  setFaults(r);
  mon::desc("start and stop in any order");
  auto server = Server::create();
  std::shared_ptr<Epoch> e;
  int port = 0, n = int(r.range(1, 8));
  uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    int op = int(r.below(3));
    h = mon::combine(h, uint64_t(op));
    if (op == 0) {
      server->stop();
      if (e) {
        ended(e);
        CHECK(bindable(port), "the port is not free after stop");
        e.reset();
      }
    } else if (op == 1 && port) {
      auto next = std::make_shared<Epoch>();
      CHECK(startOn(r, server.get(), port, next), "cannot start again on the same port");
      if (e) {
        ended(e);
      }
      e = next;
    } else {
      std::shared_ptr<Epoch> next;
      port = startAnywhere(r, server.get(), &next);
      if (e) {
        ended(e);
      }
      e = next;
    }
    if (e) {
      int fd = rawConnectRetry(port);
      CHECK(fd >= 0, "cannot connect to a started server");
      auto x = e;
      mon::waitUntil([&] { return x->callbacks.load() >= 1; });
      // Close from here first, so that no connection lingers on the server's port.
      close(fd);
      std::unique_lock<std::mutex> l(x->m);
      x->streams.clear();
    }
  }
  server.reset();
  if (e) {
    ended(e);
    CHECK(bindable(port), "the port is not free after the server has gone");
    CHECK(e->errors == 0, "an error was reported though nothing failed");
  }
  mon::count("sequences");
  mon::cover(h);
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c19");
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSignal;
  sigaction(SIGUSR1, &sa, nullptr);
  mon::startWatchdog();
  {
    Rng r(1);
    netutil::connectPair(r);
  }
  size_t fds0 = mon::numFds();
  mon::cases(100, [&](uint64_t, Rng& r) {
    switch (r.below(10)) {
      case 0:
      case 1:
      case 2:
        clients(r);
        break;
      case 3:
      case 4:
        stopUnderFire(r);
        break;
      case 5:
      case 6:
        busyPort(r);
        break;
      case 7:
        noServer(r);
        break;
      default:
        startStop(r);
    }
    nettrace::quiet();
    CHECK(nettrace::live() == 0, "%zu descriptors were never closed", nettrace::live());
    size_t n = mon::numFds();
    CHECK(n == fds0, "%zu descriptors open, %zu at the start", n, fds0);
  });
  mon::count("injected_faults", nettrace::tr().injected);
  mon::count("signals_taken", signals);
  return mon::finish();
}
