// C02: incoming requests and events are handled once each, in order, one at a time.
#include "sess.h"

using namespace sess;

namespace {

// Online checker of handler invocations.
struct Order {
  std::mutex m;
  std::vector<int64_t> log;
  std::atomic<int> inside{0};
  std::atomic<int> maxInside{0};
  std::thread::id tid;
  struct In {
    Order* o;
    explicit In(Order* o) : o(o) {
      int n = ++o->inside;
      CHECK(n == 1, "%d handlers of one session run at the same time", n);
    }
    ~In() { --o->inside; }
  };
  void add(int64_t tag) {
    std::unique_lock<std::mutex> l(m);
    log.push_back(tag);
  }
  size_t size() {
    std::unique_lock<std::mutex> l(m);
    return log.size();
  }
};

struct Setup {
  Order order;
  mon::Rng hr{1};
  int slow = 0;           // percent of handlers that take time
  mon::Gate* gate = nullptr;  // the handler of tag 0 waits for it
  bool holdAnswers = false;   // deferred answers wait for release()
  std::mutex m;
  std::vector<std::function<void()>> held;
  std::atomic<uint64_t> answered{0};

  void enter(const char* k, int64_t tag, const std::string& bad) {
    CHECK(bad.empty(), "%s tag %lld handled with wrong content: %s", k, (long long)tag, bad.c_str());
    order.add(tag);
    mon::progress();
    if (tag == 0 && gate) {
      gate->wait();
    }
    if (slow) {
      mon::jitter(hr, slow);
    }
  }
  void later(const std::function<void()>& f, Deferrer* def, bool defer) {
    auto g = [this, f] {
      f();
      answered++;
    };
    if (!defer) {
      g();
    } else if (holdAnswers) {
      std::unique_lock<std::mutex> l(m);
      held.push_back(g);
    } else {
      def->add(g);
    }
  }
  void registerOn(dap::Session* s, Deferrer* def, uint64_t deferPercent) {
    using namespace dap;
    s->registerHandler([this](const ReqA& q) -> ResponseOrError<RespA> {
      Order::In in(&order);
      enter("reqA", q.tag, verify(q, q.tag, REQ));
      answered++;
      if (tagFails(q.tag)) {
        return Error(tagError(q.tag));
      }
      RespA p;
      fill(p, q.tag, RESP);
      return p;
    });
    s->registerHandler([this](const ReqB& q) {
      Order::In in(&order);
      enter("reqB", q.tag, verify(q, q.tag, REQ));
      answered++;
      RespB p;
      fill(p, q.tag, RESP);
      return p;
    });
    s->registerHandler([this](const ReqC& q) -> Error {
      Order::In in(&order);
      enter("reqC", q.tag, verify(q, q.tag, REQ));
      answered++;
      return Error(tagError(q.tag));
    });
    s->registerHandler([=](const ReqD& q, std::function<void(RespD)> cb) {
      Order::In in(&order);
      enter("reqD", q.tag, verify(q, q.tag, REQ));
      int64_t tag = q.tag;
      later([=] {
        RespD p;
        fill(p, tag, RESP);
        cb(p);
      }, def, mon::mix(uint64_t(tag)) % 100 < deferPercent);
    });
    s->registerHandler([=](const ReqE& q, std::function<void(ResponseOrError<RespE>)> cb) {
      Order::In in(&order);
      enter("reqE", q.tag, verify(q, q.tag, REQ));
      int64_t tag = q.tag;
      later([=] {
        if (tagFails(tag)) {
          cb(Error(tagError(tag)));
        } else {
          RespE p;
          fill(p, tag, RESP);
          cb(p);
        }
      }, def, mon::mix(uint64_t(tag)) % 100 < deferPercent);
    });
    s->registerHandler([this](const EvX& e) {
      Order::In in(&order);
      enter("evX", e.tag, verify(e, e.tag, EVT));
    });
    s->registerHandler([this](const EvY& e) {
      Order::In in(&order);
      enter("evY", e.tag, verify(e, e.tag, EVT));
    });
    s->registerHandler([this](const EvZ& e) {
      Order::In in(&order);
      enter("evZ", e.tag, verify(e, e.tag, EVT));
    });
  }
};

mj::Value rawMessage(mon::Rng& r, int64_t tag, int64_t seq, bool* isRequest) {
  int k = int(r.below(8));
  *isRequest = k < 5;
  if (k < 5) {
    return msgRequest(seq, std::string("req") + char('A' + k), tree(tag, REQ));
  }
  return msgEvent(seq, std::string("ev") + char('X' + k - 5), tree(tag, EVT));
}

void rawStream(uint64_t i, mon::Rng& r) {
  Wire::Config cfg;
  cfg.maxRead = r.chance(40) ? 1 + r.below(600) : 0;
  cfg.seed = r.next();
  auto in = std::make_shared<Wire>(cfg);
  auto out = std::make_shared<Wire>();
  Setup su;
  su.hr = r.fork();
  su.slow = r.chance(50) ? int(r.below(30)) : 0;
  su.holdAnswers = r.chance(25);
  mon::Gate gate;
  bool burst = r.chance(20);
  int n = burst ? int(r.chance(7) ? r.range(5000, 12000) : r.range(200, 3000)) : int(r.range(1, 200));
  if (i == 0 && mon::opt().shard == 2) {  // more than any 16-bit count holds
    burst = true;
    n = 70000;
  }
  if (n > 3000) {
    su.slow = 0;
  }
  if (burst) {
    su.gate = &gate;
  }
  mon::desc(mon::fmt("rawStream n=%d burst=%d slow=%d hold=%d maxRead=%zu", n, burst, su.slow, su.holdAnswers, cfg.maxRead));
  Deferrer def(2, r.next(), n < 500);
  Errors errs;
  auto s = dap::Session::create();
  s->onError([&](const char* e) { errs.add(e); });
  su.registerOn(s.get(), &def, 60);
  if (r.chance(10)) {
    su.registerOn(s.get(), &def, 60);  // refused, or replacing: one handler each all the same
    mon::count("registered_twice");
  }
  size_t errs0 = errs.size();
  uint64_t requests = 0, sig = 0;
  bool early = r.chance(30);  // some data is there before the session starts
  bool started = false;
  int startAt = early ? int(r.below(uint64_t(n) + 1)) : 0;
  int64_t seq = 1;
  for (int k = 0; k < n; k++) {
    if (!started && k >= startAt) {
      s->bind(in, out);
      started = true;
    }
    bool rq;
    auto v = rawMessage(r, k, seq, &rq);
    seq += r.chance(10) ? r.range(-3, 5) : 1;  // peers number as they like
    requests += rq;
    sig = mon::combine(sig, rq);
    auto t = frame::wrap(mj::text(v, r.chance(20) ? &r : nullptr));
    if (r.chance(20) && t.size() > 2) {
      size_t c = 1 + r.below(t.size() - 1);
      in->put(t.substr(0, c));
      if (n < 500) {
        mon::jitter(r, 50);
      }
      in->put(t.substr(c));
    } else {
      in->put(t);
    }
    if (n < 500) {
      mon::jitter(r, 10);
    }
    mon::progress();
  }
  if (!started) {
    s->bind(in, out);
  }
  if (burst) {
    // The whole burst is read while the first handler still blocks.
    if (r.chance(75)) {
      size_t left = 0;
      double since = mon::now();
      mon::waitUntil([&] {
        size_t u = in->unread();
        if (u != left) {
          left = u;
          since = mon::now();
        }
        return u == 0 || mon::now() - since > 2;
      });
      mon::count("bursts_read_behind_a_blocked_handler");
    } else if (r.chance(50)) {
      usleep(useconds_t(r.below(20000)));
    }
    gate.open();
  }
  mon::waitUntil([&] { return su.order.size() >= size_t(n) && su.order.inside == 0; });
  if (su.holdAnswers) {
    std::vector<std::function<void()>> held;
    {
      std::unique_lock<std::mutex> l(su.m);
      held.swap(su.held);
    }
    r.shuffle(held);
    for (auto& f : held) {
      f();
      mon::progress();
    }
    mon::count("answers_after_all_handled", held.size());
  }
  def.finish();
  RawReader rd(out);
  mj::Value rv;
  for (uint64_t k = 0; k < requests; k++) {
    CHECK(rd.next(&rv), "the session's output ended");
    mon::progress();
  }
  in->end();
  s.reset();
  {
    std::unique_lock<std::mutex> l(su.order.m);
    CHECK(su.order.log.size() == size_t(n), "%zu handler invocations for %d messages", su.order.log.size(), n);
    for (int k = 0; k < n; k++) {
      CHECK(su.order.log[size_t(k)] == k, "message %d was handled at position of message %lld", k, (long long)su.order.log[size_t(k)]);
    }
  }
  CHECK(errs.size() == errs0, "valid traffic reported an error: %s", errs.last().c_str());
  CHECK(su.answered == requests, "%llu answers for %llu requests", (unsigned long long)su.answered.load(), (unsigned long long)requests);
  mon::count("messages_handled", uint64_t(n));
  mon::count(burst ? "bursts" : "streams");
  mon::maximum("largest_burst", burst ? uint64_t(n) : 0);
  mon::cover(mon::combine(sig, uint64_t(n)));
  if (i < 4) {
    mon::sample(mon::fmt("raw peer wrote %d messages (%llu requests), burst=%d, answers held=%d", n, (unsigned long long)requests, burst, su.holdAnswers));
  }
}

// Several threads send through a library session; the receiver must see the
// order of the wire.
void libSender(uint64_t, mon::Rng& r) {
  Wire::Config cfg;
  cfg.slowWrites = r.chance(50);
  cfg.maxRead = r.chance(40) ? 1 + r.below(600) : 0;
  cfg.seed = r.next();
  auto ab = std::make_shared<Wire>(cfg);
  auto ba = std::make_shared<Wire>();
  Setup su;
  su.hr = r.fork();
  su.slow = int(r.below(20));
  Deferrer def(2, r.next());
  auto a = dap::Session::create(), b = dap::Session::create();
  Errors errs;
  a->onError([&](const char* e) { errs.add(e); });
  b->onError([&](const char* e) { errs.add(e); });
  su.registerOn(b.get(), &def, 50);
  a->bind(ba, ab);
  b->bind(ab, ba);
  int threads = int(r.range(2, 6)), per = int(r.range(5, 60));
  mon::desc(mon::fmt("libSender threads=%d per=%d", threads, per));
  mon::Threads ts;
  mon::Barrier bar(threads);
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, t, tr] {
      bar.arrive();
      std::vector<Pending> ps;
      for (int k = 0; k < per; k++) {
        int64_t tag = t * 1000 + k + 1;
        int kind = int(tr->below(8));
        if (kind < 5) {
          ps.push_back(sendKind(a.get(), char('A' + kind), tag, tr->chance(30)));
        } else if (kind == 5) {
          dap::EvX e;
          fill(e, tag, EVT);
          a->send(e);
        } else if (kind == 6) {
          dap::EvY e;
          fill(e, tag, EVT);
          a->send(e);
        } else {
          dap::EvZ e;
          fill(e, tag, EVT);
          a->send(e);
        }
        mon::jitter(*tr, 5);
      }
      for (auto& p : ps) {
        p.await();
        CHECK(p.check().empty(), "wrong answer: %s", p.check().c_str());
        mon::progress();
      }
    });
  }
  ts.join();
  size_t n = size_t(threads) * size_t(per);
  mon::waitUntil([&] { return su.order.size() >= n && su.order.inside == 0; });
  def.finish();
  ab->end();
  ba->end();
  a.reset();
  b.reset();
  auto copy = std::make_shared<Wire>();
  copy->put(ab->log());
  copy->end();
  RawReader rd(copy);
  mj::Value v;
  size_t k = 0;
  uint64_t sig = 0;
  while (rd.next(&v)) {
    auto args = v.find(strField(v, "type") == "event" ? "body" : "arguments");
    CHECK(args, "message without content");
    auto tag = intField(*args, "tag");
    CHECK(k < su.order.log.size() && su.order.log[k] == tag, "position %zu on the wire is message %lld, handled there was %lld", k, (long long)tag, k < su.order.log.size() ? (long long)su.order.log[k] : -1);
    sig = mon::combine(sig, uint64_t(tag));
    k++;
  }
  CHECK(k == n && su.order.log.size() == n, "%zu messages on the wire, %zu handled, %zu sent", k, su.order.log.size(), n);
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("messages_handled", n);
  mon::count("lib_sender_streams");
  mon::cover(sig);
}

// The application pumps the messages itself.
void pumped(uint64_t, mon::Rng& r) {
  Wire::Config cfg;
  cfg.maxRead = r.chance(40) ? 1 + r.below(600) : 0;
  cfg.seed = r.next();
  auto in = std::make_shared<Wire>(cfg);
  auto out = std::make_shared<Wire>();
  Setup su;
  Deferrer def(1, r.next());
  auto s = dap::Session::create();
  su.registerOn(s.get(), &def, 50);
  s->connect(in, out);
  int n = int(r.range(1, 60));
  uint64_t requests = 0;
  size_t expect = 0;
  std::vector<std::function<void()>> kept;
  size_t done = 0;
  for (int k = 0; k < n; k++) {
    bool rq;
    in->put(frame::wrap(mj::text(rawMessage(r, k, k + 1, &rq))));
    requests += rq;
    expect++;
    if (r.chance(60) || k == n - 1) {
      while (expect) {
        auto f = s->getPayload();
        CHECK(bool(f), "no payload for a valid message");
        CHECK(su.order.size() == done, "a handler ran before its payload was called");
        expect--;
        f();
        done++;
        CHECK(su.order.size() == done, "calling a payload ran %zu handlers, want %zu", su.order.size(), done);
        mon::progress();
      }
    }
  }
  for (size_t k = 0; k < su.order.log.size(); k++) {
    CHECK(su.order.log[k] == int64_t(k), "payloads out of order");
  }
  def.finish();
  CHECK(su.answered == requests, "answers missing");
  s.reset();
  mon::count("pumped_messages", uint64_t(n));
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c02");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (i == 0 && mon::opt().shard == 2) {
      mon::Undisturbed calm;
      rawStream(i, r);
      return;
    }
    switch (r.below(10)) {
      case 0: pumped(i, r); break;
      case 1: case 2: case 3: libSender(i, r); break;
      default: rawStream(i, r);
    }
  });
  return mon::finish();
}
