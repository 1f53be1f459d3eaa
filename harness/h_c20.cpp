// C20: the hand-off queue delivers every item exactly once, in order, until closed.
#include "chan.h"

#include "mon.h"

namespace {

std::atomic<int64_t> live{0};

// Counts its instances; a moved-from or destroyed item is recognisable.
struct Item {
  int64_t id = -1;
  std::shared_ptr<std::string> text;
  Item() { live++; }
  explicit Item(int64_t id) : id(id), text(std::make_shared<std::string>(std::to_string(id))) { live++; }
  Item(const Item& o) : id(o.id), text(o.text) { live++; }
  Item(Item&& o) noexcept : id(o.id), text(std::move(o.text)) {
    o.id = -2;
    live++;
  }
  Item& operator=(const Item& o) = default;
  Item& operator=(Item&& o) noexcept {
    id = o.id;
    text = std::move(o.text);
    o.id = -2;
    return *this;
  }
  ~Item() { live--; }
  bool good() const { return id >= 0 && text && *text == std::to_string(id); }
};

struct Op {
  int64_t id;
  uint64_t begin, end;
};

void history(uint64_t i, mon::Rng& r) {
  int64_t live0 = live;
  {
    dap::Chan<Item> ch;
    int producers = int(r.range(1, 5)), consumers = int(r.range(1, 5)), per = int(r.range(1, 60));
    bool closeEarly = r.chance(30);  // close while items are queued
    mon::desc(mon::fmt("history producers=%d consumers=%d per=%d", producers, consumers, per));
    std::atomic<uint64_t> clock{0};
    std::vector<std::vector<Op>> puts(static_cast<size_t>(producers)), takes(static_cast<size_t>(consumers));
    std::atomic<bool> closing{false};
    std::atomic<int> taken{0};
    int total = producers * per;
    mon::Barrier bar(producers + consumers);
    mon::Threads ps, cs;
    for (int c = 0; c < consumers; c++) {
      auto tr = std::make_shared<mon::Rng>(r.fork());
      cs.go([&, c, tr] {
        bar.arrive();
        while (true) {
          mon::jitter(*tr, 5);
          Op o;
          o.begin = clock++;
          auto v = ch.take();
          o.end = clock++;
          if (!v.has_value()) {
            CHECK(closing, "take returned nothing from an open queue");
            return;
          }
          CHECK(v.value().good(), "item %lld was moved-from or damaged", (long long)v.value().id);
          o.id = v.value().id;
          takes[size_t(c)].push_back(o);
          taken++;
          mon::progress();
        }
      });
    }
    for (int p = 0; p < producers; p++) {
      auto tr = std::make_shared<mon::Rng>(r.fork());
      ps.go([&, p, tr] {
        bar.arrive();
        for (int k = 0; k < per; k++) {
          mon::jitter(*tr, 5);
          Op o;
          o.id = int64_t(p) * 100000 + k;
          Item it(o.id);
          o.begin = clock++;
          if (tr->chance(50)) {
            ch.put(it);
            CHECK(it.good(), "put of a constant item changed it");
          } else {
            ch.put(std::move(it));
          }
          o.end = clock++;
          puts[size_t(p)].push_back(o);
          mon::progress();
        }
      });
    }
    bool during = r.chance(20);  // close while producers are still putting
    if (during) {
      mon::jitter(r, 60);
    } else {
      ps.join();
      if (!closeEarly) {
        mon::waitUntil([&] { return taken >= total; });
      }
    }
    uint64_t closeBegin = clock++;
    closing = true;
    ch.close();
    ps.join();
    cs.join();
    std::map<int64_t, Op> put;
    for (auto& v : puts) {
      for (auto& o : v) {
        put[o.id] = o;
      }
    }
    std::vector<std::pair<Op, Op>> pairs;  // (put, take)
    std::set<int64_t> seen;
    for (auto& v : takes) {
      std::map<int64_t, int64_t> last;
      for (auto& o : v) {
        CHECK(put.count(o.id), "took an item that was never put");
        CHECK(seen.insert(o.id).second, "item %lld taken twice", (long long)o.id);
        auto prod = o.id / 100000;
        auto it = last.find(prod);
        CHECK(it == last.end() || it->second < o.id, "items of one producer taken out of order by one consumer");
        last[prod] = o.id;
        pairs.emplace_back(put[o.id], o);
      }
    }
    for (auto& o : put) {
      // (An item put after the close may go either way.)
      CHECK(o.second.end > closeBegin || seen.count(o.first), "item %lld was put before the close and never taken", (long long)o.first);
    }
    CHECK(during || int(seen.size()) == total, "%zu of %d items taken", seen.size(), total);
    mon::count("closed_while_putting", during);
    // Real-time order: put(x) before put(y) entirely implies not take(y) entirely
    // before take(x).
    for (auto& x : pairs) {
      CHECK(x.second.end > x.first.begin, "item %lld taken before it was put", (long long)x.first.id);
      for (auto& y : pairs) {
        CHECK(!(x.first.end < y.first.begin && y.second.end < x.second.begin), "item %lld was put before item %lld but taken after it", (long long)x.first.id, (long long)y.first.id);
      }
    }
    uint64_t sig = 0;
    std::sort(pairs.begin(), pairs.end(), [](const std::pair<Op, Op>& a, const std::pair<Op, Op>& b) { return a.second.end < b.second.end; });
    for (auto& p : pairs) {
      sig = mon::combine(sig, uint64_t(p.first.id));
    }
    mon::cover(sig);
    mon::count("items", uint64_t(total));
    mon::count("histories");
    if (i < 3) {
      mon::sample(mon::st().caseDesc);
    }
  }
  CHECK(live == live0, "%lld items leaked or destroyed twice", (long long)(live - live0));
}

// A backlog beyond any 16-bit count.
void backlog(mon::Rng& r) {
  int64_t live0 = live;
  {
    dap::Chan<Item> ch;
    int64_t n = r.range(66000, 140000), got = 0;
    for (int64_t k = 0; k < n; k++) {
      ch.put(Item(k));
      if (r.below(50) == 0) {
        auto v = ch.take();
        CHECK(v.has_value() && v.value().id == got, "took item %lld, want %lld of a long queue", v.has_value() ? (long long)v.value().id : -1LL, (long long)got);
        got++;
      }
    }
    mon::maximum("deepest_queue", uint64_t(n - got));
    ch.close();
    for (; got < n; got++) {
      auto v = ch.take();
      CHECK(v.has_value() && v.value().id == got, "took item %lld, want %lld of a long queue", v.has_value() ? (long long)v.value().id : -1LL, (long long)got);
      mon::progress();
    }
    CHECK(!ch.take().has_value(), "an item more than were put");
  }
  CHECK(live == live0, "%lld items leaked or destroyed twice", (long long)(live - live0));
  mon::count("long_queues");
}

// Sequential behaviour against a model, with close and reset.
void model(uint64_t, mon::Rng& r) {
  int64_t live0 = live;
  {
    dap::Chan<Item> ch;
    std::deque<std::pair<int64_t, bool>> q;  // item, put after the close
    bool closed = false;
    int64_t next = 0;
    bool deep = r.chance(4);  // thousands of items in the queue
    for (int k = 0, n = int(deep ? r.range(3000, 12000) : r.range(1, 120)), up = 1; k < n; k++) {
      if (deep && r.chance(1) && r.chance(5)) {
        up = 1 - up;
      }
      switch (deep ? (r.below(1000) == 0 ? r.below(2) : r.chance(up ? 80 : 20) ? 2 : 9) : r.below(10)) {
        case 0:
          ch.close();
          closed = true;
          break;
        case 1:
          ch.reset();
          q.clear();
          closed = false;
          CHECK(live == live0, "reset left %lld items behind", (long long)(live - live0));
          break;
        case 2: case 3: case 4: case 5:
          if (!closed || r.chance(20)) {
            Item it(next);
            q.emplace_back(next++, closed);
            if (r.chance(50)) {
              ch.put(it);
            } else {
              ch.put(std::move(it));
            }
          }
          break;
        default:
          if (!q.empty() || closed) {
            auto v = ch.take();  // must not block
            // An item put after the close may be dropped, the others may not.
            while (!q.empty() && q.front().second && !(v.has_value() && v.value().id == q.front().first)) {
              q.pop_front();
            }
            CHECK(v.has_value() == !q.empty(), "take returned %s, the queue %s", v.has_value() ? "an item" : "nothing", q.empty() ? "is empty" : "has items");
            if (v.has_value()) {
              CHECK(v.value().good() && v.value().id == q.front().first, "took item %lld, want %lld", (long long)v.value().id, (long long)q.front().first);
              q.pop_front();
            }
          }
      }
      mon::maximum("deepest_queue", q.size());
      mon::progress();
    }
    mon::count("model_ops", 1);
  }
  CHECK(live == live0, "%lld items leaked or destroyed twice", (long long)(live - live0));
}

// Blocked takers: one item wakes one of them, close wakes all.
void blocked(uint64_t, mon::Rng& r) {
  dap::Chan<Item> ch;
  int rounds = int(r.range(1, 3));
  for (int round = 0; round < rounds; round++) {
    int n = int(r.range(1, 6)), items = int(r.range(0, n));
    std::atomic<int> got{0}, none{0};
    std::atomic<bool> closing{false};
    mon::Threads ts;
    for (int k = 0; k < n; k++) {
      ts.go([&] {
        auto v = ch.take();
        if (v.has_value()) {
          got++;
        } else {
          CHECK(closing, "take returned nothing from an open queue");
          none++;
        }
        mon::progress();
      });
    }
    mon::jitter(r, 80);
    bool fast = r.chance(50), byCopy = r.chance(50);
    for (int k = 0; k < items; k++) {
      Item it(k);
      if (byCopy) {
        ch.put(it);
      } else {
        ch.put(std::move(it));
      }
      if (!fast) {
        mon::jitter(r, 50);
      }
    }
    if (r.chance(70)) {
      mon::waitUntil([&] { return got >= items; });
    }
    closing = true;
    ch.close();
    ts.join();
    // Items put before the close go to takers as long as there are any.
    CHECK(got == items && none == n - items, "%d takers got an item and %d nothing, of %d takers and %d items", got.load(), none.load(), n, items);
    ch.reset();
    mon::count("blocked_takers", uint64_t(n));
    mon::cover(mon::combine(uint64_t(n * 10 + items), uint64_t(round * 2 + fast)));
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c20");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (i == 0) {
      backlog(r);
    }
    switch (r.below(5)) {
      case 0: model(i, r); break;
      case 1: case 2: blocked(i, r); break;
      default: history(i, r);
    }
  });
  return mon::finish();
}
