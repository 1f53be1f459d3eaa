// C16: pending results complete once, wake every waiter and keep their value.
#include "dap/any.h"
#include "dap/future.h"
#include "dap/types.h"

#include "mon.h"

namespace {

using Clock = std::chrono::steady_clock;

template <typename T>
T make(uint64_t x);
template <>
int make<int>(uint64_t x) { return int(x & 0x7fffffff); }
template <>
std::string make<std::string>(uint64_t x) { return std::string(size_t(x % 200), char('a' + x % 26)) + std::to_string(x); }
struct Big {
  uint64_t a[40];
  bool operator==(const Big& o) const { return memcmp(a, o.a, sizeof a) == 0; }
};
template <>
Big make<Big>(uint64_t x) {
  Big b;
  for (auto& v : b.a) {
    v = x = mon::mix(x);
  }
  return b;
}
template <>
std::shared_ptr<uint64_t> make<std::shared_ptr<uint64_t>>(uint64_t x) { return std::make_shared<uint64_t>(x); }
template <typename T>
bool same(const T& a, const T& b) { return a == b; }
bool same(const std::shared_ptr<uint64_t>& a, const std::shared_ptr<uint64_t>& b) { return a && b && *a == *b; }

template <typename T>
void run(uint64_t i, mon::Rng& r) {
  int waiters = int(r.range(0, 8));
  uint64_t x = r.next() >> 8;
  const T want = make<T>(x);
  auto prom = std::make_shared<dap::promise<T>>();
  // Some waiters share one future, others have their own; all before or after.
  auto shared = std::make_shared<dap::future<T>>(prom->get_future());
  CHECK(shared->valid(), "a future of a promise is not valid");
  CHECK(shared->wait_for(std::chrono::seconds(0)) == dap::future_status::timeout, "ready before the value was set");
  struct TimePoint {
    std::atomic<int64_t> ns{-1};
  } setBegin, setEnd;
  auto stamp = [] { return int64_t(Clock::now().time_since_epoch().count()); };
  mon::Barrier bar(waiters + 1);
  mon::Threads ts;
  std::atomic<int> timeouts{0}, readies{0};
  uint64_t sig = mon::hash(typeid(T).name(), 4);
  int delayUs = r.chance(50) ? 0 : int(r.below(4000));
  for (int w = 0; w < waiters; w++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    std::shared_ptr<dap::future<T>> f;
    if (r.chance(50)) {
      f = shared;
    } else {
      f = std::make_shared<dap::future<T>>(prom->get_future());
      if (r.chance(30)) {
        f = std::make_shared<dap::future<T>>(std::move(*f));
      }
    }
    int how = int(r.below(6));
    sig = mon::combine(sig, uint64_t(how));
    ts.go([&, tr, f, how] {
      bar.arrive();
      mon::jitter(*tr, 50);
      auto value = [&] {
        CHECK(setBegin.ns >= 0, "a waiter was released before the value was set");
        auto v = f->get();
        CHECK(same(v, want), "a waiter read another value than was set");
      };
      switch (how) {
        case 0: {
          auto v = f->get();
          CHECK(setBegin.ns >= 0, "get returned before the value was set");
          CHECK(same(v, want), "get returned another value than was set");
          break;
        }
        case 1:
          f->wait();
          value();
          break;
        default: {
          // Timed waits, until ready.
          mon::Polling polling;
          while (true) {
            int us = int(tr->chance(20) ? tr->range(-500, 0) : tr->range(0, 2500));
            auto d = std::chrono::microseconds(us);
            int64_t before = stamp();
            int64_t deadline = before + int64_t(us) * 1000;
            dap::future_status st;
            switch (how) {
              case 2: st = f->wait_for(d); break;
              case 3: {
                auto t = Clock::now() + d;
                deadline = int64_t(t.time_since_epoch().count());
                st = f->wait_until(t);
                break;
              }
              case 4: st = f->wait_until(std::chrono::system_clock::now() + d); break;
              default: st = f->wait_for(std::chrono::duration<double>(us * 1e-6)); deadline -= 2000; break;
            }
            int64_t end = setEnd.ns;  // read before `after` is taken
            int64_t after = stamp();
            if (st == dap::future_status::ready) {
              readies++;
              value();
              break;
            }
            timeouts++;
            if (how != 4) {
              CHECK(after >= deadline, "a timed wait timed out %lld ns before its deadline", (long long)(deadline - after));
              CHECK(!(end >= 0 && end < deadline - 2000 && end < before), "timeout although the value was set before the wait began");
              CHECK(!(end >= 0 && end < deadline - 2000), "timeout although the value was set %lld ns before the deadline", (long long)(deadline - end));
            } else {
              CHECK(!(end >= 0 && end < before), "timeout although the value was set before the wait began");
            }
            mon::progress();
          }
        }
      }
      readies++;
      mon::progress();
    });
  }
  bar.arrive();
  if (delayUs) {
    usleep(useconds_t(delayUs));
  }
  bool early = r.chance(50);
  if (early) {
    CHECK(shared->wait_for(std::chrono::microseconds(0)) == dap::future_status::timeout, "ready before the value was set");
  }
  // Set through a copy, by const reference or by move.
  dap::promise<T> copy(*prom);
  bool dropBefore = r.chance(30);
  if (dropBefore) {
    prom.reset();
  }
  setBegin.ns = stamp();
  if (r.chance(50)) {
    copy.set_value(want);
  } else {
    T tmp = make<T>(x);
    copy.set_value(std::move(tmp));
  }
  setEnd.ns = stamp();
  CHECK(shared->wait_for(std::chrono::seconds(0)) == dap::future_status::ready, "not ready after the value was set");
  if (r.chance(50)) {
    auto late = copy.get_future();
    CHECK(late.wait_until(Clock::now() - std::chrono::seconds(1)) == dap::future_status::ready, "a later future is not ready");
    CHECK(same(late.get(), want) && same(late.get(), want), "a later future has another value");
  }
  prom.reset();
  { dap::promise<T> gone(std::move(copy)); }
  ts.join();
  // The value outlives the promise.
  CHECK(same(shared->get(), want), "the value changed after the promise was destroyed");
  shared->wait();
  CHECK(shared->wait_for(std::chrono::hours(1000)) == dap::future_status::ready, "not ready");
  mon::count("waiters_released", uint64_t(waiters));
  mon::count("timeouts_observed", uint64_t(timeouts.load()));
  mon::count("promises");
  mon::cover(mon::combine(sig, uint64_t(delayUs / 100)));
  if (i < 3) {
    mon::sample(mon::fmt("%d waiters of mixed kinds, value set after %d us, %d timeouts seen", waiters, delayUs, timeouts.load()));
  }
}

// Many promises, futures dropped before the value comes.
void dropped(uint64_t, mon::Rng& r) {
  std::vector<dap::promise<std::string>> ps(size_t(r.range(1, 50)));
  std::vector<dap::future<std::string>> fs;
  for (auto& p : ps) {
    fs.push_back(p.get_future());
  }
  mon::Threads ts;
  auto tr = r.fork();
  ts.go([&] {
    for (size_t k = 0; k < ps.size(); k++) {
      ps[k].set_value(make<std::string>(k));
      mon::jitter(tr, 5);
    }
  });
  for (size_t k = 0; k < fs.size(); k++) {
    if (k % 3 == 0) {
      dap::future<std::string> gone(std::move(fs[k]));  // destroyed, set or not
    } else {
      CHECK(fs[k].get() == make<std::string>(k), "future %zu has the value of another", k);
    }
  }
  ts.join();
  mon::count("promises", ps.size());
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c16");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(5)) {
      case 0: run<int>(i, r); break;
      case 1: run<std::string>(i, r); break;
      case 2: run<Big>(i, r); break;
      case 3: run<std::shared_ptr<uint64_t>>(i, r); break;
      default: dropped(i, r);
    }
  });
  return mon::finish();
}
