// C12: a session can be destroyed at any moment without crash, hang or leak.
#include "netutil.h"
#include "sess.h"

#if defined(MON_ASAN)
#include <sanitizer/lsan_interface.h>
#endif

using namespace sess;

namespace {

// One side: a session with handlers that know whether the session is gone.
struct Side {
  std::unique_ptr<dap::Session> s;
  std::atomic<bool> gone{false};
  std::atomic<int> inside{0}, handled{0}, closed{0};
  std::mutex m;
  std::vector<std::function<void()>> dropped;  // answers never given
  mon::Rng hr{1};
  int slow = 0;
  bool talkBack = false;

  struct In {
    Side* d;
    explicit In(Side* d) : d(d) {
      CHECK(!d->gone, "a handler runs after the destructor of its session has returned");
      d->inside++;
      d->handled++;
      mon::progress();
      if (d->slow) {
        mon::jitter(d->hr, d->slow);
      }
    }
    // The content is looked at: it must live as long as the handler runs.
    template <typename T>
    In(Side* d, const T& v, uint64_t role) : In(d) {
      auto e = verify(v, v.tag, role);
      CHECK(e.empty(), "a handler got another content: %s", e.c_str());
    }
    ~In() {
      d->inside--;
      CHECK(!d->gone, "the destructor of a session returned while a handler was running");
    }
  };
  void create(mon::Rng& r) {
    using namespace dap;
    hr = r.fork();
    slow = r.chance(60) ? int(r.below(60)) : 0;
    talkBack = r.chance(40);
    s = Session::create();
    if (r.chance(50)) {
      s->onError([this](const char*) { CHECK(!gone, "an error callback runs after the destructor has returned"); });
    }
    auto* raw = s.get();
    s->registerHandler([this](const ReqA& q) -> ResponseOrError<RespA> {
      In in(this, q, REQ);
      if (tagFails(q.tag)) {
        return Error(tagError(q.tag));
      }
      RespA p;
      fill(p, q.tag, RESP);
      return p;
    });
    s->registerHandler([this, raw](const ReqB& q) {
      In in(this, q, REQ);
      if (talkBack) {
        raw->send(ReqF());  // result dropped
        EvZ e;
        fill(e, q.tag, EVT);
        raw->send(e);
      }
      RespB p;
      fill(p, q.tag, RESP);
      return p;
    });
    s->registerHandler([this](const ReqE& q, std::function<void(ResponseOrError<RespE>)> cb) {
      In in(this, q, REQ);
      if (mon::mix(uint64_t(q.tag)) % 2) {
        std::unique_lock<std::mutex> l(m);
        dropped.push_back([cb] { cb(RespE()); });
      } else {
        RespE p;
        fill(p, q.tag, RESP);
        cb(p);
      }
    });
    s->registerHandler([this](const EvX& e) { In in(this, e, EVT); });
    s->registerHandler([this](const EvY& e) { In in(this, e, EVT); });
    s->registerSentHandler([this](const ResponseOrError<RespA>&) { CHECK(!gone, "a sent callback runs after the destructor has returned"); });
  }
  void destroy() {
    s.reset();
    gone = true;
    CHECK(inside == 0, "the destructor of a session returned while a handler was running");
  }
  std::function<void()> onClose() {
    return [this] {
      CHECK(!gone, "the close callback runs after the destructor has returned");
      closed++;
    };
  }
};

std::string message(mon::Rng& r, int64_t tag) {
  mj::Value v;
  switch (r.below(9)) {
    case 0: v = msgRequest(tag, "reqA", tree(tag, REQ)); break;
    case 1: v = msgRequest(tag, "reqB", tree(tag, REQ)); break;
    case 2: v = msgRequest(tag, "reqE", tree(tag, REQ)); break;
    case 3: v = msgEvent(tag, "evX", tree(tag, EVT)); break;
    case 4: v = msgEvent(tag, "evY", tree(tag, EVT)); break;
    case 5: v = msgEvent(tag, "noSuchEvent", tree(tag, EVT)); break;
    case 6: v = msgRequest(tag, "noSuchRequest", tree(tag, REQ)); break;
    case 7: v = rawAnswer('A', r.range(1, 10), tag, r.range(1, 12)); break;
    default: {
      v = msgRequest(tag, "reqA", tree(tag, REQ));
      v.find("arguments")->erase("tag");  // ill-formed
    }
  }
  return frame::wrap(mj::text(v));
}

size_t settledThreads(size_t want) {
  // A joined thread may take a moment to leave /proc.
  size_t n = 0;
  for (int k = 0; k < 200; k++) {
    n = mon::numThreads();
    if (n <= want) {
      return n;
    }
    usleep(k < 50 ? 100 : 2000);
  }
  return n;
}

// The raw peer sends arbitrary traffic; the session dies at a random moment.
void rawPeer(uint64_t i, mon::Rng& r) {
  size_t threads0 = mon::numThreads();
  uint64_t sig;
  {
    Wire::Config ci, co;
    ci.maxRead = r.chance(40) ? 1 + r.below(200) : 0;
    ci.drain = r.chance(50);
    ci.seed = r.next();
    co.slowWrites = r.chance(50);
    co.seed = r.next();
    if (r.chance(15)) {
      co.failAfter = int64_t(r.below(1500));
    } else if (r.chance(20)) {
      co.fullAfter = int64_t(r.below(1500));  // the peer does not read
    }
    auto in = std::make_shared<Wire>(ci), out = std::make_shared<Wire>(co);
    Side side;
    side.create(r);
    int phase = int(r.below(8));  // how far the session gets
    int n = int(r.chance(20) ? r.range(100, 600) : r.range(0, 40));
    mon::desc(mon::fmt("rawPeer phase=%d n=%d slow=%d talkBack=%d fail=%lld full=%lld", phase, n, side.slow, side.talkBack, (long long)co.failAfter, (long long)co.fullAfter));
    sig = mon::combine(uint64_t(phase), uint64_t(n));
    bool bound = phase > 0;
    if (phase == 1) {
      side.s->connect(in, out);  // connected, not processing
    } else if (phase > 1) {
      if (r.chance(50)) {
        side.s->bind(in, out, side.onClose());
      } else {
        side.s->bind(in, out);
      }
    }
    mon::Threads ts;
    std::vector<Pending> ps;
    auto feed = r.fork();
    bool feeder = phase > 1 && r.chance(80);
    if (feeder) {
      ts.go([&] {
        for (int k = 0; k < n; k++) {
          auto t = message(feed, k + 1);
          if (feed.chance(20)) {
            size_t c = feed.below(t.size());
            in->put(t.substr(0, c));
            mon::jitter(feed, 30);
            in->put(t.substr(c));
          } else {
            in->put(t);
          }
          mon::jitter(feed, 10);
        }
        if (feed.chance(30)) {
          in->put(message(feed, 1).substr(0, feed.below(40)));  // ends mid-message
        }
        if (feed.chance(30)) {
          in->end();
        } else if (feed.chance(10)) {
          in->close();
        }
        if (feed.chance(10)) {
          out->close();
        }
      });
    }
    if (phase > 2 && co.fullAfter < 0) {  // (this thread must not get stuck)
      for (int k = 0, c = int(r.below(12)); k < c; k++) {
        ps.push_back(sendKind(side.s.get(), char('A' + r.below(5)), k, r.chance(50)));
      }
    }
    if (phase > 3) {
      mon::jitter(r, 80);
    }
    if (phase > 5) {
      int want = int(r.below(uint64_t(n) + 1) / 2);
      for (int k = 0; k < 50 && side.handled < want; k++) {
        usleep(200);
      }
    }
    if (phase == 7 && r.chance(50)) {
      // Destroyed by another thread than created it.
      std::thread([&] { side.destroy(); }).join();
    } else {
      side.destroy();
    }
    if (bound) {
      CHECK(in->isClosed() && out->isClosed(), "the streams of a destroyed session are still open (in closed %d, out closed %d)", in->isClosed(), out->isClosed());
    }
    ts.join();
    int h = side.handled;
    mon::count("destroyed with a blocked write", out->stuckWrites() > 0);
    if (r.chance(5)) {
      usleep(3000);
    }
    CHECK(side.handled == h, "handlers run after destruction");
    for (auto& p : ps) {
      if (p.ready()) {
        p.result();  // results given stay readable
      }
      CHECK(p.completions() <= 1, "a request completed %d times", p.completions());
    }
    if (i % 3 == 0) {
      ps.clear();
    }
    mon::count("handlers_run", uint64_t(h));
    mon::count(("raw_phase_" + std::to_string(phase)).c_str());
    sig = mon::combine(sig, uint64_t(h));
  }
  auto n = settledThreads(threads0);
  CHECK(n <= threads0, "%zu threads after destroying a session, %zu before creating it", n, threads0);
  mon::cover(sig);
}

// Two library sessions in full traffic, destroyed in any order or together.
void pair(uint64_t, mon::Rng& r) {
  size_t threads0 = mon::numThreads();
  size_t fds0 = mon::numFds();
  int kind = int(r.below(3));
  int order = int(r.below(4));
  {
    netutil::Tcp tcp;
    Link link;
    if (kind == 2) {
      tcp = netutil::connectPair(r);
      link.aIn = tcp.client;
      link.aOut = tcp.client;
      link.bIn = tcp.peer;
      link.bOut = tcp.peer;
    } else {
      link = makeLink(r, kind);
    }
    Side a, b;
    a.create(r);
    b.create(r);
    a.s->bind(link.aIn, link.aOut, a.onClose());
    b.s->bind(link.bIn, link.bOut, b.onClose());
    int n = int(r.range(0, 60));
    mon::desc(mon::fmt("pair kind=%d order=%d n=%d", kind, order, n));
    std::vector<Pending> pa, pb;
    for (int k = 0; k < n; k++) {
      if (r.chance(50)) {
        pa.push_back(sendKind(a.s.get(), "ABE"[r.below(3)], k, r.chance(40)));
      } else if (r.chance(70)) {
        pb.push_back(sendKind(b.s.get(), "ABE"[r.below(3)], k, r.chance(40)));
      } else {
        dap::EvX e;
        fill(e, k, EVT);
        a.s->send(e);
      }
      mon::jitter(r, 5);
    }
    if (r.chance(30) && !pa.empty()) {
      // Let some of it finish: A and B are always answered.
      for (auto& p : pa) {
        if (p.kind != 'E') {
          p.await();
          break;
        }
      }
    }
    mon::jitter(r, 50);
    auto checkPeerGone = [&](Link& l) { (void)l; };
    checkPeerGone(link);
    if (order == 0) {
      a.destroy();
      b.destroy();
    } else if (order == 1) {
      b.destroy();
      mon::jitter(r, 50);
      a.destroy();
    } else {
      mon::Barrier bar(2);
      mon::Threads ts;
      ts.go([&] {
        bar.arrive();
        a.destroy();
      });
      ts.go([&] {
        bar.arrive();
        b.destroy();
      });
      ts.join();
    }
    CHECK(a.closed == 1 && b.closed == 1, "close callbacks ran %d and %d times", a.closed.load(), b.closed.load());
    CHECK(!link.aOut->isOpen() && !link.aIn->isOpen() && !link.bOut->isOpen() && !link.bIn->isOpen(), "a stream of a destroyed session is still open");
    mon::count("handlers_run", uint64_t(a.handled + b.handled));
    mon::count(kind == 2 ? "pairs_tcp" : kind == 1 ? "pairs_wire" : "pairs_pipe");
    mon::cover(mon::combine(uint64_t(order * 10 + kind), mon::combine(uint64_t(a.handled), uint64_t(b.handled))));
    if (tcp.server) {
      tcp.server->stop();
    }
  }
  auto n = settledThreads(threads0);
  CHECK(n <= threads0, "%zu threads after destroying both sessions, %zu before", n, threads0);
  CHECK(mon::numFds() <= fds0, "%zu descriptors open, %zu before", mon::numFds(), fds0);
}

// Never used, used without connection, bound twice.
void odd(uint64_t, mon::Rng& r) {
  size_t threads0 = mon::numThreads();
  {
    Side d;
    d.create(r);
    switch (r.below(5)) {
      case 0: break;
      case 4:
        d.s->startProcessingMessages();  // connected to nothing
        mon::jitter(r, 50);
        d.destroy();
        mon::count("started_unconnected");
        break;
      case 1: {
        auto p = sendKind(d.s.get(), 'A', 1);
        d.destroy();
        CHECK(p.ready(), "result of an unconnected send lost");
        break;
      }
      case 2: {
        auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
        d.s->bind(in, out);
        d.s->connect(std::make_shared<Wire>(), std::make_shared<Wire>());
        d.s->startProcessingMessages();
        d.destroy();
        CHECK(in->isClosed() && out->isClosed(), "streams left open");
        break;
      }
      default: {
        // Unused payloads of a pumped session, dropped before or after it.
        auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
        d.s->connect(in, out);
        std::vector<std::function<void()>> fs;
        for (int k = 0; k < 5; k++) {
          in->put(frame::wrap(mj::text(msgRequest(k, "reqA", tree(k, REQ)))));
          fs.push_back(d.s->getPayload());
        }
        fs[2]();
        if (r.chance(50)) {
          fs.clear();
        }
        d.destroy();
        CHECK(in->isClosed() && out->isClosed(), "streams left open");
      }
    }
    if (d.s) {
      d.destroy();
    }
  }
  CHECK(settledThreads(threads0) <= threads0, "a thread is left behind");
  mon::count("odd_lifecycles");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c12");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(10)) {
      case 0: odd(i, r); break;
      case 1: case 2: case 3: pair(i, r); break;
      default: rawPeer(i, r);
    }
    if (i < 3) {
      mon::sample(mon::st().caseDesc);
    }
#if defined(MON_ASAN)
    if (i % 64 == 63) {
      CHECK(!__lsan_do_recoverable_leak_check(), "memory leaked by a destroyed session");
    }
#endif
  });
  return mon::finish();
}
