// C21: the reader/writer lock excludes writers and always makes progress.
#include "rwmutex.h"

#include "mon.h"

namespace {

struct Watch {
  std::atomic<int> readers{0}, writers{0}, maxReaders{0};
  void enterRead() {
    int n = ++readers;
    CHECK(writers == 0, "a reader holds the lock together with a writer");
    int m = maxReaders;
    while (n > m && !maxReaders.compare_exchange_weak(m, n)) {
    }
  }
  void leaveRead() {
    CHECK(writers == 0, "a writer obtained the lock while a reader held it");
    --readers;
  }
  void enterWrite() {
    int n = ++writers;
    CHECK(n == 1, "%d writers hold the lock", n);
    CHECK(readers == 0, "a writer holds the lock together with a reader");
  }
  void leaveWrite() {
    CHECK(writers == 1 && readers == 0, "the lock was given away while a writer held it");
    --writers;
  }
};

void hold(mon::Rng& r, int percent) {
  if (r.chance(percent)) {
    mon::jitter(r, 100);
  }
}

void stress(uint64_t i, mon::Rng& r) {
  dap::RWMutex m;
  Watch w;
  int nr = int(r.range(0, 6)), nw = int(r.range(0, 6)), per = int(r.range(5, 80));
  bool guards = r.chance(50);
  mon::desc(mon::fmt("stress readers=%d writers=%d per=%d guards=%d", nr, nw, per, guards));
  // Plain data guarded by the lock: seen torn only if exclusion fails.
  uint64_t data[4] = {0, 0, 0, 0};
  mon::Threads ts;
  mon::Barrier bar(nr + nw);
  std::atomic<uint64_t> reads{0}, writes{0};
  for (int k = 0; k < nr; k++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      bar.arrive();
      for (int n = 0; n < per; n++) {
        auto body = [&] {
          w.enterRead();
          uint64_t a = data[0];
          hold(*tr, 20);
          CHECK(a == data[1] && a == data[2] && a == data[3], "a reader saw a half-done write");
          w.leaveRead();
          reads++;
        };
        if (guards) {
          dap::RLock l(m);
          if (tr->chance(30)) {
            dap::RLock l2(std::move(l));
            body();
          } else {
            body();
          }
        } else {
          m.lockReader();
          body();
          m.unlockReader();
        }
        mon::progress();
        hold(*tr, 10);
      }
    });
  }
  for (int k = 0; k < nw; k++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      bar.arrive();
      for (int n = 0; n < per; n++) {
        auto body = [&] {
          w.enterWrite();
          for (auto& d : data) {
            d++;
            hold(*tr, 5);
          }
          w.leaveWrite();
          writes++;
        };
        if (guards) {
          dap::WLock l(m);
          if (tr->chance(30)) {
            dap::WLock l2(std::move(l));
            body();
          } else {
            body();
          }
        } else {
          m.lockWriter();
          body();
          m.unlockWriter();
        }
        mon::progress();
        hold(*tr, 10);
      }
    });
  }
  ts.join();
  CHECK(data[0] == uint64_t(nw) * uint64_t(per), "writes were lost: %llu", (unsigned long long)data[0]);
  mon::count("read_locks", reads);
  mon::count("write_locks", writes);
  mon::maximum("readers_together", uint64_t(w.maxReaders.load()));
  mon::cover(mon::combine(uint64_t(nr * 10 + nw), uint64_t(per * 2 + guards)));
  if (i < 3) {
    mon::sample(mon::st().caseDesc + mon::fmt(": up to %d readers together", w.maxReaders.load()));
  }
}

// Readers that wait for each other inside the lock: they must all get in.
void together(uint64_t, mon::Rng& r) {
  dap::RWMutex m;
  int n = int(r.range(2, 8));
  mon::Threads ts;
  mon::Barrier in(n);
  for (int k = 0; k < n; k++) {
    ts.go([&] {
      dap::RLock l(m);
      in.arrive();
      mon::progress();
    });
  }
  ts.join();
  mon::count("readers_met", uint64_t(n));
}

// Many writers queue up behind readers; when those leave, all must get through.
void queued(uint64_t, mon::Rng& r) {
  dap::RWMutex m;
  Watch w;
  int n = int(r.range(1, 8)), nr = int(r.range(1, 4));
  mon::desc(mon::fmt("queued writers=%d readers=%d", n, nr));
  std::atomic<int> done{0};
  for (int k = 0; k < nr; k++) {
    m.lockReader();
    w.readers++;
  }
  mon::Threads ts;
  for (int k = 0; k < n; k++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      m.lockWriter();
      w.enterWrite();
      hold(*tr, 30);
      w.leaveWrite();
      m.unlockWriter();
      done++;
      mon::progress();
    });
  }
  mon::jitter(r, 80);
  if (r.chance(50)) {
    usleep(1000);
  }
  CHECK(done == 0, "a writer obtained the lock while readers held it");
  // New readers may come and go while the writers wait.
  std::atomic<int> late{0};
  int nl = int(r.below(4));
  for (int k = 0; k < nl; k++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      m.lockReader();
      w.enterRead();
      hold(*tr, 30);
      w.leaveRead();
      m.unlockReader();
      late++;
      mon::progress();
    });
  }
  for (int k = 0; k < nr; k++) {
    mon::jitter(r, 30);
    w.leaveRead();
    m.unlockReader();
  }
  ts.join();  // a lost wake-up hangs here
  CHECK(done == n && late == nl, "%d of %d writers", done.load(), n);
  // The lock is free again for anybody.
  m.lockWriter();
  m.unlockWriter();
  m.lockReader();
  m.unlockReader();
  mon::count("queued_writers", uint64_t(n));
  mon::cover(mon::combine(uint64_t(n * 100 + nr * 10 + nl), 7));
}

// Lock guards that change hands.
void guards(uint64_t, mon::Rng& r) {
  dap::RWMutex a, b;
  auto isFree = [](dap::RWMutex& m) {
    // Obtainable by another thread; hangs otherwise.
    std::thread([&] {
      dap::WLock l(m);
    }).join();
    mon::progress();
  };
  if (r.chance(50)) {
    dap::WLock x(a);
    dap::WLock y(b);
    x = std::move(y);
    isFree(a);
    std::atomic<bool> got{false};
    std::thread t([&] {
      dap::RLock l(b);
      got = true;
    });
    usleep(300);
    CHECK(!got, "the lock was released by moving its guard");
    { dap::WLock z(std::move(x)); }
    t.join();
  } else {
    dap::RLock x(a);
    dap::RLock y(b);
    x = std::move(y);
    isFree(a);
    dap::RLock z(std::move(x));
    std::atomic<bool> got{false};
    std::thread t([&] {
      dap::WLock l(b);
      got = true;
    });
    usleep(300);
    CHECK(!got, "the lock was released by moving its guard");
    { dap::RLock q(std::move(z)); }
    t.join();
  }
  isFree(a);
  isFree(b);
  mon::count("guards_moved");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c21");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(8)) {
      case 0: together(i, r); break;
      case 1: guards(i, r); break;
      case 2: case 3: case 4: queued(i, r); break;
      default: stress(i, r);
    }
  });
  return mon::finish();
}
