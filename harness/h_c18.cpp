// C18: TCP streams are lossless, survive faults and never kill the process.
#define NETTRACE_MAIN
#include "nettrace.h"
#include "netutil.h"

#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>

using mon::Rng;
using Stream = std::shared_ptr<dap::ReaderWriter>;

namespace {

std::atomic<uint64_t> signals{0};
void onSignal(int) { signals.fetch_add(1, std::memory_order_relaxed); }

unsigned char streamByte(uint64_t key, uint64_t pos) {
  return (unsigned char)(mon::mix(key ^ (pos >> 3)) >> ((pos & 7) * 8));
}
void fillBytes(std::string& s, uint64_t key, uint64_t pos) {
  for (size_t i = 0; i < s.size(); i++) {
    s[i] = char(streamByte(key, pos + i));
  }
}

void setFaults(Rng& r) {
  auto& f = nettrace::faults();
  nettrace::tr().seed = r.next();
  nettrace::tr().sendFailed = false;
  f.squat = r.chance(60);
  switch (r.below(5)) {
    case 0:
      break;
    case 1:
      f.shortSend = 50;
      break;
    case 2:
      f.shortRecv = 50;
      f.shortSend = 10;
      break;
    case 3:
      f.eintr = 30;
      break;
    default:
      f.shortSend = 30;
      f.shortRecv = 30;
      f.eintr = 20;
      f.eintrConnect = 30;
  }
}

struct Pair {
  std::unique_ptr<dap::net::Server> server;
  Stream a, b;  // library ends
  int raw = -1;  // raw end, instead of b
};

// Connected streams: 0 = both ends of the library, 1 = raw server, 2 = raw client.
Pair makePair(Rng& r, int kind) {
  Pair p;
  uint32_t timeout = r.chance(50) ? 0 : 20000;
  if (kind == 1) {
    int port = 0;
    int l = netutil::rawListen(r, &port);
    p.a = dap::net::connect("127.0.0.1", port, timeout);
    CHECK(bool(p.a), "cannot connect (timeout %u) to a listening port", timeout);
    p.raw = __real_accept4(l, nullptr, nullptr, SOCK_CLOEXEC);
    CHECK(p.raw >= 0, "connect succeeded but nothing to accept");
    __real_close(l);
    std::unique_lock<std::mutex> g(nettrace::tr().m);
    nettrace::tr().live.erase(l);
    return p;
  }
  p.server = dap::net::Server::create();
  struct Slot {
    mon::Gate g;
    Stream c;
  };
  auto slot = std::make_shared<Slot>();
  int port = netutil::startServer(r, p.server.get(), [slot](const Stream& c) {
    if (!slot->g.isOpen()) {
      slot->c = c;
      slot->g.open();
    }
  });
  if (kind == 2) {
    p.raw = -1;
    while (p.raw < 0) {
      // (an interrupted raw connect of the harness is not of interest)
      auto& f = nettrace::faults();
      int e = f.eintrConnect.exchange(0);
      p.raw = netutil::rawConnect(port);
      f.eintrConnect = e;
      CHECK(p.raw >= 0, "cannot connect to a started server");
    }
    slot->g.wait();
    p.a = slot->c;
    slot->c.reset();
  } else {
    p.a = dap::net::connect("127.0.0.1", port, timeout);
    CHECK(bool(p.a), "cannot connect (timeout %u) to a started server", timeout);
    slot->g.wait();
    p.b = slot->c;
    slot->c.reset();
    if (r.chance(50)) {
      std::swap(p.a, p.b);
    }
  }
  CHECK(bool(p.a) && (p.raw >= 0 || p.b), "no stream was handed over");
  CHECK(p.a->isOpen() && (!p.b || p.b->isOpen()), "a fresh stream is not open");
  if (r.chance(50)) {
    p.server.reset();  // the streams do not depend on the server
  }
  return p;
}

// Reads or writes of either kind of end.
size_t rd(const Stream& s, int raw, char* b, size_t n) {
  if (s) {
    size_t k = s->read(b, n);
    CHECK(k <= n, "read of %zu bytes returned %zu", n, k);
    return k;
  }
  while (true) {
    ssize_t k = __real_recv(raw, b, n, 0);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    return k < 0 ? 0 : size_t(k);
  }
}
bool wrRaw(int raw, const char* b, size_t n) {
  while (n) {
    ssize_t k = __real_send(raw, b, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      return false;
    }
    b += k;
    n -= size_t(k);
  }
  return true;
}
bool wr(const Stream& s, int raw, const char* b, size_t n) { return s ? s->write(b, n) : wrRaw(raw, b, n); }

size_t ioSize(Rng& r, bool big) {
  switch (r.below(8)) {
    case 0:
      return 1;
    case 1:
      return 1 + r.below(8);
    case 2:
    case 3:
      return 1 + r.below(300);
    case 4:
    case 5:
      return 1 + r.below(5000);
    case 6:
      return 1 + r.below(70000);
    default:
      return 1 + r.below(big ? 3000000 : 300000);
  }
}

// Pokes a thread with real signals while it is at work.
struct Poker {
  std::vector<pthread_t> targets;
  std::atomic<bool> stop{false};
  std::thread t;
  Rng r;
  std::mutex m;
  explicit Poker(uint64_t seed) : r(seed) {}
  void add(pthread_t p) {
    std::unique_lock<std::mutex> l(m);
    targets.push_back(p);
  }
  void remove(pthread_t p) {
    std::unique_lock<std::mutex> l(m);
    targets.erase(std::find(targets.begin(), targets.end(), p));
  }
  void start() {
    t = std::thread([this] {
      mon::Polling p;
      while (!stop) {
        {
          std::unique_lock<std::mutex> l(m);
          for (auto p : targets) {
            pthread_kill(p, SIGUSR1);
          }
        }
        usleep(useconds_t(50 + r.below(400)));
      }
    });
  }
  void finish() {
    stop = true;
    if (t.joinable()) {
      t.join();
    }
  }
};
struct Poked {
  Poker* p;
  explicit Poked(Poker* p) : p(p) {
    if (p) {
      p->add(pthread_self());
    }
  }
  ~Poked() {
    if (p) {
      p->remove(pthread_self());
    }
  }
};

// Everything written in both directions arrives, in order; then end of stream.
void transfer(Rng& r) {
  bool poke = r.chance(35);
  std::unique_ptr<Poker> poker(poke ? new Poker(r.next()) : nullptr);
  Pair p = makePair(r, int(r.below(3)));
  bool big = r.chance(15);
  uint64_t total[2] = {big ? 200000 + r.below(6000000) : r.below(200000), r.chance(30) ? 0 : r.below(300000)};
  uint64_t key[2] = {r.next(), r.next()};
  int closeHow = int(r.below(3));
  mon::desc(mon::fmt("transfer %llu/%llu signals=%d raw=%d", (unsigned long long)total[0], (unsigned long long)total[1],
                     int(poke), p.raw));
  mon::Threads th;
  if (poker) {
    poker->start();
  }
  std::atomic<int> writersLeft{2};
  mon::Gate readDone[2];
  for (int d = 0; d < 2; d++) {
    // direction 0: a -> b/raw; direction 1: b/raw -> a
    Stream ws = d == 0 ? p.a : p.b, rs = d == 0 ? p.b : p.a;
    int wraw = d == 0 ? -1 : p.raw, rraw = d == 0 ? p.raw : -1;
    uint64_t sw = r.next(), sr = r.next();
    th.go([=, &writersLeft, &poker] {
      Poked pk(poker.get());
      Rng q(sw);
      uint64_t pos = 0;
      while (pos < total[d]) {
        std::string s(std::min<uint64_t>(ioSize(q, big), total[d] - pos), 0);
        fillBytes(s, key[d], pos);
        CHECK(wr(ws, wraw, s.data(), s.size()), "a write of %zu bytes to an open stream failed", s.size());
        pos += s.size();
        mon::progress();
      }
      if (ws && q.chance(30)) {
        CHECK(ws->write("", 0), "a write of no bytes to an open stream failed");
      }
      writersLeft--;
    });
    th.go([=, &poker, &readDone] {
      Poked pk(poker.get());
      Rng q(sr);
      std::string buf;
      uint64_t pos = 0;
      while (pos < total[d]) {
        size_t n = ioSize(q, big);
        buf.assign(n, '\0');
        size_t k = rd(rs, rraw, &buf[0], n);
        CHECK(k > 0, "end of stream after %llu of %llu bytes", (unsigned long long)pos, (unsigned long long)total[d]);
        CHECK(pos + k <= total[d], "more bytes read than were written");
        for (size_t i = 0; i < k; i++) {
          CHECK((unsigned char)buf[i] == streamByte(key[d], pos + i), "byte %llu of the stream is wrong (direction %d)",
                (unsigned long long)(pos + i), d);
        }
        pos += k;
        mon::progress();
        if (q.chance(2)) {
          mon::jitter(q, 100);
        }
      }
      mon::count("bytes", pos);
      readDone[d].open();
    });
  }
  readDone[0].wait();
  readDone[1].wait();
  th.join();
  if (poker) {
    poker->finish();
  }
  CHECK(p.a->isOpen(), "the stream is no longer open after a transfer");
  // One end closes: the other reads the end of the stream.
  char c;
  if (closeHow == 0 || (p.raw < 0 && !p.b)) {
    p.a->close();
    CHECK(rd(p.b, p.raw, &c, 1) == 0, "bytes appeared that nobody wrote");
  } else if (p.b) {
    if (closeHow == 1) {
      p.b->close();
    } else {
      p.b.reset();
    }
    CHECK(p.a->read(&c, 1) == 0, "bytes appeared that nobody wrote");
  } else {
    __real_close(p.raw);
    {
      std::unique_lock<std::mutex> g(nettrace::tr().m);
      nettrace::tr().live.erase(p.raw);
    }
    p.raw = -1;
    CHECK(p.a->read(&c, 1) == 0, "bytes appeared that nobody wrote");
  }
  if (p.raw >= 0) {
    close(p.raw);
  }
  mon::count("transfers");
  mon::cover(mon::combine(mon::combine(total[0], total[1]), uint64_t(poke)));
}

// Data written before a close arrives completely, also what is still on its way to a slow reader.
void closeAfterWrite(Rng& r) {
  Pair p = makePair(r, int(r.below(3)));
  uint64_t key = r.next();
  bool slow = r.chance(12);
  size_t n = slow ? 2000000 + r.below(10000000) : r.chance(30) ? 1 + r.below(60000) : 1 + r.below(3000);
  std::string s(n, 0);
  if (slow) {
    std::string unit(4096, 0);
    fillBytes(unit, key, 0);
    for (size_t i = 0; i < n; i++) {
      s[i] = char(unit[i % 4096] + char(i >> 12));
    }
  } else {
    fillBytes(s, key, 0);
  }
  mon::desc(mon::fmt("close after writing %zu", n));
  std::string got;
  std::string buf(slow ? 20000 + r.below(60000) : 1 + r.below(5000), 0);
  auto reading = [&] {
    while (true) {
      size_t k = rd(p.b, p.raw, &buf[0], buf.size());
      if (k == 0) {
        break;
      }
      got.append(buf, 0, k);
      CHECK(got.size() <= s.size(), "more bytes read than were written");
      mon::progress();
      if (slow) {
        usleep(100);
      }
    }
  };
  mon::Threads th;
  if (slow) {
    th.go(reading);
  }
  CHECK(p.a->write(s.data(), s.size()), "a write to an open stream failed");
  if (r.chance(50)) {
    p.a->close();
    CHECK(!p.a->isOpen(), "open after close");
    CHECK(!p.a->write("x", 1), "a write succeeded after close");
  } else {
    p.a.reset();
  }
  if (!slow) {
    reading();
  }
  th.join();
  CHECK(got == s, "the peer read %zu of the %zu bytes written before the close, or others", got.size(), s.size());
  if (p.raw >= 0) {
    close(p.raw);
  }
  mon::count(slow ? "closed_with_bytes_on_their_way" : "closed_after_write");
  mon::cover(mon::combine(key, n));
}

// The peer is gone: writes fail in the end, reads end, the process lives.
void deadPeer(Rng& r) {
  Pair p = makePair(r, int(r.below(3)));
  bool reset = r.chance(50), unread = r.chance(50);
  mon::desc(mon::fmt("dead peer reset=%d unread=%d raw=%d", int(reset), int(unread), p.raw));
  std::string s(1 + r.below(40000), 'w');
  if (unread) {
    p.a->write(s.data(), std::min<size_t>(s.size(), 1000));
  }
  if (p.raw >= 0) {
    if (reset) {
      linger lg = {1, 0};
      setsockopt(p.raw, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    }
    close(p.raw);
  } else if (r.chance(50)) {
    p.b->close();
  } else {
    p.b.reset();
  }
  int tries = 0;
  while (p.a->write(s.data(), s.size())) {
    CHECK(++tries < 2000, "2000 writes to a peer that has closed all succeeded");
    if (tries > 3) {
      usleep(1000);
    }
    mon::progress();
  }
  for (int i = 0; i < 3; i++) {
    CHECK(!p.a->write(s.data(), s.size()), "a write succeeded after one failed because the peer has gone");
  }
  char b[16];
  for (int i = 0; i < 3; i++) {
    size_t k = p.a->read(b, sizeof b);
    CHECK(k == 0, "read %zu bytes that nobody wrote", k);
  }
  p.a->close();
  CHECK(!p.a->isOpen(), "open after close");
  mon::maximum("writes_before_failure", uint64_t(tries));
  mon::count("dead_peers");
  mon::cover(mon::combine(s.size(), uint64_t(reset) * 2 + unread));
}

// Closing releases reads and writes that are blocked, on any number of threads.
void closeBlocked(Rng& r) {
  Pair p = makePair(r, int(r.below(3)));
  int readers = int(r.range(0, 3)), writers = int(r.range(0, 2)), closers = int(r.range(1, 3));
  if (readers + writers == 0) {
    readers = 1;
  }
  mon::desc(mon::fmt("close with %d blocked readers, %d writers, %d closers", readers, writers, closers));
  Stream s = p.a;
  std::atomic<bool> closing{false};
  std::atomic<int> released{0};
  mon::Threads th;
  std::atomic<int> started{0};
  for (int i = 0; i < readers; i++) {
    th.go([&, s] {
      char b[64];
      started++;
      size_t k = s->read(b, sizeof b);
      CHECK(closing, "a read on an idle open stream returned");
      CHECK(k == 0, "a read released by close returned %zu bytes", k);
      released++;
      CHECK(s->read(b, sizeof b) == 0, "a read succeeded after close");
    });
  }
  for (int i = 0; i < writers; i++) {
    th.go([&, s] {
      // Nobody reads at the other end: this blocks sooner or later.
      std::string big(256 * 1024, 'x');
      started++;
      int n = 0;
      while (s->write(big.data(), big.size())) {
        CHECK(++n < 4000, "a gigabyte was accepted that nobody reads");
        mon::progress();
      }
      CHECK(closing, "a write to an open stream failed");
      released++;
      CHECK(!s->write("x", 1), "a write succeeded after close");
    });
  }
  while (started < readers + writers) {
    std::this_thread::yield();
  }
  usleep(useconds_t(r.below(r.chance(30) ? 30000 : 1000)));
  closing = true;
  uint64_t q0 = r.next();
  for (int i = 0; i < closers; i++) {
    th.go([&, s, i] {
      Rng q(q0 + uint64_t(i));
      mon::jitter(q);
      s->close();
      CHECK(!s->isOpen(), "open after close");
    });
  }
  th.join();
  CHECK(!s->isOpen() && !s->write("x", 1), "the closed stream still works");
  char c;
  CHECK(s->read(&c, 1) == 0, "the closed stream still reads");
  s->close();  // again: no effect
  if (p.raw >= 0) {
    close(p.raw);
  }
  mon::count("released_calls", uint64_t(released.load()));
  mon::cover(mon::combine(uint64_t(readers * 16 + writers * 4 + closers), r.next()));
}

// Closing while data flows: no crash, no foreign descriptor is touched.
void closeDuringTraffic(Rng& r) {
  Pair p = makePair(r, 0);
  mon::desc("close during traffic");
  mon::Threads th;
  uint64_t key = r.next();
  Stream a = p.a, b = p.b;
  std::atomic<uint64_t> sent{0};
  uint64_t s1 = r.next(), s2 = r.next(), s3 = r.next();
  th.go([&, a] {
    Rng q(s1);
    uint64_t pos = 0;
    while (true) {
      std::string s(ioSize(q, false), 0);
      fillBytes(s, key, pos);
      if (!a->write(s.data(), s.size())) {
        break;
      }
      pos += s.size();
      sent = pos;
      mon::progress();
    }
  });
  th.go([&, b] {
    Rng q(s2);
    uint64_t pos = 0;
    std::string buf;
    while (true) {
      buf.assign(ioSize(q, false), 0);
      size_t k = b->read(&buf[0], buf.size());
      if (k == 0) {
        break;
      }
      for (size_t i = 0; i < k; i++) {
        CHECK((unsigned char)buf[i] == streamByte(key, pos + i), "byte %llu of the stream is wrong", (unsigned long long)(pos + i));
      }
      pos += k;
    }
    mon::count("bytes", pos);
    b->close();
  });
  th.go([&, a, b] {
    Rng q(s3);
    usleep(useconds_t(q.below(3000)));
    for (int i = 0; i < 20; i++) {
      a->isOpen();
      b->isOpen();
    }
    bool first = q.chance(50);
    (first ? a : b)->close();
    // Numbers freed by the close are likely to be taken at once.
    int f[4];
    for (auto& x : f) {
      x = open("/dev/null", O_RDWR | O_CLOEXEC);
    }
    usleep(useconds_t(q.below(300)));
    for (auto& x : f) {
      __real_close(x);
    }
    // (a write that was blocked when the *peer* closed may take the operating
    // system a minute to notice, so the other end is closed as well)
    (first ? b : a)->close();
  });
  th.join();
  mon::count("closed_during_traffic");
  mon::cover(key);
}

// A send that fails half way makes the write fail, and nothing is sent twice.
void hardFailure(Rng& r) {
  Pair p = makePair(r, int(r.below(3)));
  uint64_t key = r.next();
  std::string s(2 + r.below(60000), 0);
  fillBytes(s, key, 0);
  auto& f = nettrace::faults();
  int64_t budget = int64_t(r.below(s.size()));
  mon::desc(mon::fmt("send fails after %lld of %zu bytes", (long long)budget, s.size()));
  f.sendBudget = budget;
  bool ok = p.a->write(s.data(), s.size());
  bool injected = nettrace::tr().sendFailed;
  f.sendBudget = -1;
  if (injected) {
    CHECK(!ok, "the write reported success although sending failed after %lld of %zu bytes", (long long)budget, s.size());
    mon::count("failed_sends");
  } else {
    CHECK(ok, "a write to an open stream failed");
  }
  p.a->close();
  std::string got, buf(5000, 0);
  while (size_t k = rd(p.b, p.raw, &buf[0], buf.size())) {
    got.append(buf, 0, k);
  }
  CHECK(got.size() <= s.size() && s.compare(0, got.size(), got) == 0, "the peer read bytes that were not written, or written twice");
  if (ok) {
    CHECK(got == s, "a write reported success but only %zu of %zu bytes arrived", got.size(), s.size());
  }
  if (p.raw >= 0) {
    close(p.raw);
  }
  mon::cover(mon::combine(s.size(), uint64_t(budget)));
}

// Descriptor numbers beyond what select() can take, and huge reads.
void unusual(Rng& r) {
  static bool roomForFds = [] {
    rlimit l;
    getrlimit(RLIMIT_NOFILE, &l);
    if (l.rlim_cur < 1400 && l.rlim_max >= 1400) {
      l.rlim_cur = 1400;
      setrlimit(RLIMIT_NOFILE, &l);
      getrlimit(RLIMIT_NOFILE, &l);
    }
    return l.rlim_cur >= 1400;
  }();
  if (roomForFds && r.chance(50)) {
    mon::desc("many descriptors");
    std::vector<int> fds;
    for (int i = 0; i < 1100; i++) {
      int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
      if (fd >= 0) {
        fds.push_back(fd);
      }
    }
    Pair p = makePair(r, int(r.below(3)));
    char b[8];
    CHECK(p.a->write("hello", 5), "a write to an open stream failed");
    size_t n = 0;
    while (n < 5) {
      size_t k = rd(p.b, p.raw, b + n, 5 - n);
      CHECK(k > 0, "nothing arrived");
      n += k;
    }
    CHECK(memcmp(b, "hello", 5) == 0, "other bytes arrived");
    p.a->close();
    if (p.raw >= 0) {
      close(p.raw);
    }
    p = Pair();
    for (int fd : fds) {
      __real_close(fd);
    }
    mon::count("high_descriptors");
    return;
  }
  mon::desc("huge read");
  static char* huge = [] {
    void* m = mmap(nullptr, size_t(5) << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return m == MAP_FAILED ? nullptr : static_cast<char*>(m);
  }();
  if (!huge) {
    return;
  }
  Pair p = makePair(r, int(r.below(3)));
  static const size_t sizes[] = {size_t(1) << 30, (size_t(1) << 31) - 1, size_t(1) << 31, size_t(3) << 30, size_t(1) << 32, (size_t(1) << 32) + 1};
  size_t n = sizes[r.below(6)];
  std::string s(1 + r.below(3000), 0);
  fillBytes(s, 7, 0);
  CHECK(wr(p.b, p.raw, s.data(), s.size()), "a write to an open stream failed");
  size_t pos = 0;
  while (pos < s.size()) {
    size_t k = p.a->read(huge, n);
    CHECK(k > 0, "a read of %zu bytes returned nothing although %zu bytes are on their way", n, s.size() - pos);
    CHECK(pos + k <= s.size() && memcmp(huge, s.data() + pos, k) == 0, "wrong bytes read");
    pos += k;
  }
  p.a->close();
  if (p.raw >= 0) {
    close(p.raw);
  }
  mon::count("huge_reads");
  mon::cover(n);
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c18");
  signal(SIGPIPE, SIG_DFL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSignal;
  sigaction(SIGUSR1, &sa, nullptr);  // without SA_RESTART
  mon::startWatchdog();
  // Warm up what allocates descriptors lazily.
  {
    Rng r(1);
    makePair(r, 0);
  }
  size_t fds0 = mon::numFds();
  mon::cases(100, [&](uint64_t i, Rng& r) {
    setFaults(r);
    switch (r.below(20)) {
      case 0:
      case 1:
      case 2:
      case 3:
      case 4:
      case 5:
        transfer(r);
        break;
      case 6:
      case 7:
      case 8:
        closeAfterWrite(r);
        break;
      case 9:
      case 10:
      case 11:
        deadPeer(r);
        break;
      case 12:
      case 13:
      case 14:
        closeBlocked(r);
        break;
      case 15:
      case 16:
        closeDuringTraffic(r);
        break;
      case 17:
      case 18:
        hardFailure(r);
        break;
      default:
        unusual(r);
    }
    nettrace::quiet();
    CHECK(nettrace::live() == 0, "%zu descriptors were never closed", nettrace::live());
    size_t n = mon::numFds();
    CHECK(n == fds0, "%zu descriptors open, %zu at the start", n, fds0);
    if (i == 3) {
      mon::sample(mon::st().caseDesc);
    }
  });
  auto& t = nettrace::tr();
  mon::count("socket_calls", t.calls);
  mon::count("injected_faults", t.injected);
  mon::count("descriptors_opened", t.opened);
  mon::count("descriptors_closed", t.closed);
  mon::count("signals_taken", signals);
  return mon::finish();
}
