// C23: handlers may talk back to the peer without deadlock.
#include "netutil.h"
#include "sess.h"

using namespace sess;

namespace {

std::string tagOf(const dap::ResponseOrError<dap::RespF>& p) {
  return p.error ? "E:" + p.error.message : "R:" + std::to_string(int64_t(p.response.tag));
}

// The raw peer answers whatever it is asked, at once, late or in any order,
// while handlers of the session wait for those answers.
void rawPeer(uint64_t i, mon::Rng& r) {
  auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
  auto s = dap::Session::create();
  auto* raw = s.get();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  std::atomic<int> handled{0}, asked{0};
  int fan = int(r.range(1, 5));
  auto talk = [&, raw](int64_t tag) {
    // A number of questions at once, then one after another.
    std::vector<Pending> ps;
    for (int k = 0; k < fan; k++) {
      ps.push_back(sendKind(raw, char('A' + k % 5), tag * 100 + k, k % 2 == 1, uint64_t(tag + k)));
    }
    dap::EvY e;
    fill(e, tag, EVT);
    raw->send(e);
    for (auto& p : ps) {
      p.await();
      auto bad = p.check();
      CHECK(bad.empty(), "a request sent by a handler completed wrongly: %s", bad.c_str());
      asked++;
      mon::progress();
    }
    for (int k = 0; k < fan; k++) {
      auto p = sendKind(raw, char('A' + (k + int(tag)) % 5), tag * 100 + 50 + k, k % 2 == 0, uint64_t(tag + k));
      p.await();
      auto bad = p.check();
      CHECK(bad.empty(), "a request sent by a handler completed wrongly: %s", bad.c_str());
      asked++;
      mon::progress();
    }
    handled++;
  };
  s->registerHandler([&](const dap::ReqA& q) -> dap::ResponseOrError<dap::RespA> {
    talk(q.tag);
    dap::RespA p;
    fill(p, q.tag, RESP);
    return p;
  });
  s->registerHandler([&](const dap::ReqE& q, std::function<void(dap::ResponseOrError<dap::RespE>)> cb) {
    talk(q.tag);
    dap::RespE p;
    fill(p, q.tag, RESP);
    cb(p);
    talk(q.tag + 5000);  // and after having answered
  });
  s->registerHandler([&](const dap::EvX& e) { talk(e.tag); });
  // A callback that itself talks to the peer.
  bool sentTalks = r.chance(50);
  if (sentTalks) {
    s->registerSentHandler([&](const dap::ResponseOrError<dap::RespA>&) {
      auto p = sendKind(raw, 'B', 999999, true);
      p.await();
      CHECK(p.check().empty(), "wrong answer: %s", p.check().c_str());
      handled++;
      mon::progress();
    });
  }
  s->bind(in, out);
  int n = int(r.range(1, 12));
  mon::desc(mon::fmt("rawPeer n=%d fan=%d", n, fan));
  int want = 0, reqs = 0;
  mon::Threads ts;
  std::atomic<bool> stop{false};
  auto pr = std::make_shared<mon::Rng>(r.fork());
  std::atomic<int> responses{0};
  ts.go([&, pr] {
    RawReader rd(out);
    mj::Value v;
    int64_t seq = 1000;
    std::vector<std::string> held;
    while (rd.next(&v)) {
      auto type = strField(v, "type");
      if (type == "response") {
        responses++;
      } else if (type == "request") {
        auto cmd = strField(v, "command");
        auto a = rawAnswer(cmd[3], intField(*v.find("arguments"), "tag"), seq++, intField(v, "seq"));
        mon::jitter(*pr, 20);
        in->put(frame::wrap(mj::text(a)));
      }
      mon::progress();
    }
  });
  for (int k = 0; k < n; k++) {
    int64_t tag = k + 1;
    switch (r.below(3)) {
      case 0: in->put(frame::wrap(mj::text(msgRequest(k + 1, "reqA", tree(tag, REQ))))); want += sentTalks ? 2 : 1; reqs++; break;
      case 1: in->put(frame::wrap(mj::text(msgRequest(k + 1, "reqE", tree(tag, REQ))))); want += 2; reqs++; break;
      default: in->put(frame::wrap(mj::text(msgEvent(k + 1, "evX", tree(tag, EVT))))); want++;
    }
    mon::jitter(r, 20);
  }
  mon::waitUntil([&] { return handled >= want && responses >= reqs; });
  in->end();
  s.reset();
  ts.join();
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("handlers_that_waited", uint64_t(want));
  mon::count("questions_asked_by_handlers", uint64_t(asked.load()));
  mon::cover(mon::combine(uint64_t(n * 10 + fan), uint64_t(sentTalks)));
  if (i < 3) {
    mon::sample(mon::fmt("%d handlers each asked the raw peer 2x%d questions and waited", want, fan));
  }
}

// Handlers that wait for other threads of the application, which meanwhile
// answer earlier requests, register handlers and talk to the peer.
void helpers(uint64_t, mon::Rng& r) {
  auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
  auto s = dap::Session::create();
  auto* raw = s.get();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  std::mutex m;
  std::vector<std::function<void()>> deferred;
  std::atomic<int> handled{0}, helped{0}, onceZ{0}, onceC{0}, onceG{0}, onceS{0};
  uint64_t seed = r.next();
  auto work = [&, raw](uint64_t k, int64_t tag) {
    mon::Rng q(mon::combine(seed, mon::combine(k, uint64_t(tag))));
    std::function<void()> answer;
    switch (q.below(6)) {
      case 0:
      case 1:
        while (true) {
          {
            std::unique_lock<std::mutex> l(m);
            if (deferred.empty()) {
              break;
            }
            answer = std::move(deferred.back());
            deferred.pop_back();
          }
          answer();
        }
        break;
      case 2: {
        if (onceZ++ == 0) {
          raw->registerHandler([](const dap::EvZ&) {});
        }
        if (onceC++ == 0) {
          raw->registerHandler([](const dap::ReqC&) { return dap::Error(std::string("c")); });
        }
        if (onceG++ == 0) {
          raw->registerHandler([](const dap::ReqG&) { return dap::RespG(); });
        }
        if (onceS++ == 0) {
          raw->registerSentHandler([&](const dap::ResponseOrError<dap::RespD>&) { mon::progress(); });
        }
        break;
      }
      case 3:
        raw->onError([&](const char* e) { errs.add(e); });
        break;
      case 4: {
        dap::EvY e;
        fill(e, tag, EVT);
        raw->send(e);
        break;
      }
      default: {
        auto p = sendKind(raw, "ABCDE"[q.below(5)], tag * 100 + int64_t(k), q.chance(50), k);
        p.await();
        auto bad = p.check();
        CHECK(bad.empty(), "a request sent while a handler waits completed wrongly: %s", bad.c_str());
      }
    }
    helped++;
    mon::progress();
  };
  auto busy = [&](int64_t tag) {
    mon::Threads ts;
    for (uint64_t k = 0, n = 1 + uint64_t(tag) % 4; k < n; k++) {
      ts.go([&, k, tag] { work(k, tag); });
    }
    ts.join();  // the handler waits for its helpers
    handled++;
  };
  s->registerHandler([&](const dap::ReqA& q) -> dap::ResponseOrError<dap::RespA> {
    busy(q.tag);
    dap::RespA p;
    fill(p, q.tag, RESP);
    return p;
  });
  s->registerHandler([&](const dap::EvX& e) { busy(e.tag); });
  s->registerHandler([&](const dap::ReqD& q, std::function<void(dap::RespD)> cb) {
    int64_t tag = q.tag;
    {
      std::unique_lock<std::mutex> l(m);
      deferred.push_back([=] {
        dap::RespD p;
        fill(p, tag, RESP);
        cb(p);
      });
    }
    if (tag % 3 == 0) {
      busy(tag);
    } else {
      handled++;
    }
  });
  s->registerHandler([&](const dap::ReqE& q, std::function<void(dap::ResponseOrError<dap::RespE>)> cb) {
    int64_t tag = q.tag;
    {
      std::unique_lock<std::mutex> l(m);
      deferred.push_back([=] {
        if (tag % 2) {
          cb(dap::Error("failed"));
          return;
        }
        dap::RespE p;
        fill(p, tag, RESP);
        cb(p);
      });
    }
    if (tag % 3 == 0) {
      busy(tag);
    } else {
      handled++;
    }
  });
  s->bind(in, out);
  mon::Threads ts;
  std::atomic<int> responses{0};
  ts.go([&] {
    RawReader rd(out);
    mj::Value v;
    int64_t seq = 1000;
    while (rd.next(&v)) {
      auto type = strField(v, "type");
      if (type == "response") {
        responses++;
      } else if (type == "request") {
        auto cmd = strField(v, "command");
        in->put(frame::wrap(mj::text(rawAnswer(cmd[3], intField(*v.find("arguments"), "tag"), seq++, intField(v, "seq")))));
      }
      mon::progress();
    }
  });
  int n = int(r.range(2, 14)), reqs = 0;
  std::string shape;
  mon::desc(mon::fmt("helpers n=%d", n));
  for (int k = 0; k < n; k++) {
    int64_t tag = k + 1;
    char c = "ADEXDE"[r.below(6)];
    shape += c;
    if (c == 'X') {
      in->put(frame::wrap(mj::text(msgEvent(k + 1, "evX", tree(tag, EVT)))));
    } else {
      in->put(frame::wrap(mj::text(msgRequest(k + 1, std::string("req") + c, tree(tag, REQ)))));
      reqs++;
    }
    mon::jitter(r, 20);
  }
  mon::waitUntil([&] { return handled >= n; });
  // What is still deferred is answered now.
  {
    std::vector<std::function<void()>> rest;
    {
      std::unique_lock<std::mutex> l(m);
      rest.swap(deferred);
    }
    for (auto& f : rest) {
      f();
    }
  }
  mon::waitUntil([&] { return responses >= reqs; });
  in->end();
  s.reset();
  ts.join();
  CHECK(responses == reqs, "%d responses to %d requests", responses.load(), reqs);
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("helpers_waited_for", uint64_t(helped.load()));
  mon::cover(mon::combine(mon::hash(shape), seed % 64));
}

// Two library sessions: a client thread asks, the server's handler asks back and
// waits, the client's handler answers (at once or later, from another thread).
void mutual(uint64_t i, mon::Rng& r) {
  int kind = int(r.below(3));
  netutil::Tcp tcp;
  Link link;
  if (kind == 2) {
    tcp = netutil::connectPair(r);
    link.aIn = tcp.client;
    link.aOut = tcp.client;
    link.bIn = tcp.peer;
    link.bOut = tcp.peer;
  } else {
    link = makeLink(r, kind);
  }
  auto a = dap::Session::create(), b = dap::Session::create();
  auto* rb = b.get();
  auto* ra = a.get();
  Errors errs;
  a->onError([&](const char* e) { errs.add(e); });
  b->onError([&](const char* e) { errs.add(e); });
  Deferrer def(2, r.next());
  std::atomic<int> backs{0}, evs{0};
  int depth = int(r.range(1, 4));
  // Server handlers: ask back and wait.
  auto back = [&, rb](int64_t tag) {
    for (int k = 0; k < depth; k++) {
      dap::ReqF q;
      fill(q, tag * 10 + k, REQ);
      q.how = k;
      auto p = rb->send(q).get();
      CHECK(!p.error && verify(p.response, tag * 10 + k, RESP).empty(), "the answer to a call-back is wrong: %s", tagOf(p).c_str());
      backs++;
      mon::progress();
    }
    dap::EvX e;
    fill(e, tag, EVT);
    rb->send(e);
  };
  b->registerHandler([&](const dap::ReqA& q) -> dap::ResponseOrError<dap::RespA> {
    back(q.tag);
    if (tagFails(q.tag)) {
      return dap::Error(tagError(q.tag));
    }
    dap::RespA p;
    fill(p, q.tag, RESP);
    return p;
  });
  b->registerHandler([&](const dap::ReqD& q, std::function<void(dap::RespD)> cb) {
    back(q.tag);
    dap::RespD p;
    fill(p, q.tag, RESP);
    cb(p);
  });
  // Answered without entering the server's dispatcher again: allowed to be late.
  b->registerHandler([&](const dap::ReqB& q) {
    dap::RespB p;
    fill(p, q.tag, RESP);
    return p;
  });
  // Client handlers: answer the call-back; may themselves send without waiting.
  a->registerHandler([&, ra](const dap::ReqF& q, std::function<void(dap::RespF)> cb) {
    int64_t tag = q.tag;
    auto f = [cb, tag] {
      dap::RespF p;
      fill(p, tag, RESP);
      cb(p);
    };
    if (q.how.value(0) % 2) {
      def.add(f);
    } else {
      f();
    }
    dap::EvY e;
    fill(e, tag, EVT);
    ra->send(e);
  });
  a->registerHandler([&](const dap::EvX&) { evs++; });
  b->registerHandler([&](const dap::EvY&) { evs++; });
  a->bind(link.aIn, link.aOut);
  b->bind(link.bIn, link.bOut);
  int threads = int(r.range(1, 4)), per = int(r.range(1, 8));
  mon::desc(mon::fmt("mutual kind=%d threads=%d per=%d depth=%d", kind, threads, per, depth));
  std::atomic<bool> registering{true};
  mon::Threads regs;
  // Registration goes on meanwhile.
  regs.go([&] {
    a->registerHandler([&](const dap::EvZ&) {});
    b->registerHandler([&](const dap::EvZ&) {});
    b->registerHandler([&](const dap::ReqC&) { return dap::Error(std::string("c")); });
    a->registerHandler([&](const dap::ReqG&) { return dap::RespG(); });
    b->registerSentHandler([&](const dap::ResponseOrError<dap::RespA>&) {});
    for (int k = 0; k < 20; k++) {
      a->onError([&](const char* e) { errs.add(e); });
      usleep(100);
    }
  });
  mon::Threads ts;
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, t, tr] {
      std::vector<Pending> ps;
      for (int k = 0; k < per; k++) {
        int64_t tag = t * 100 + k;
        char c = "ADB"[tr->below(3)];
        ps.push_back(sendKind(a.get(), c, tag, tr->chance(40)));
        if (tr->chance(50)) {
          ps.back().await();
        }
      }
      for (auto& p : ps) {
        p.await();
        CHECK(p.check().empty(), "request %c tag %lld completed wrongly: %s", p.kind, (long long)p.tag, p.check().c_str());
        mon::progress();
      }
    });
  }
  ts.join();
  regs.join();
  def.finish();
  mon::waitUntil([&] { return evs >= backs + backs / depth; });
  a.reset();
  b.reset();
  if (tcp.server) {
    tcp.server->stop();
  }
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("callbacks_waited_for", uint64_t(backs.load()));
  mon::count("mutual_runs");
  mon::cover(mon::combine(uint64_t(kind * 100 + depth), uint64_t(threads * 100 + per)));
  if (i < 4) {
    mon::sample(mon::st().caseDesc);
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c23");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (r.chance(25)) {
      helpers(i, r);
    } else if (r.chance(50)) {
      rawPeer(i, r);
    } else {
      mutual(i, r);
    }
  });
  return mon::finish();
}
