// C27: setting a session up again is refused without disturbing it.
#include "sess.h"

#include <thread>

using namespace sess;

namespace {

// A stream that must not be used.
struct Probe : public dap::ReaderWriter {
  std::atomic<int> reads{0}, writes{0}, closes{0};
  bool isOpen() override { return closes == 0; }
  void close() override { closes++; }
  size_t read(void*, size_t) override {
    reads++;
    return 0;
  }
  bool write(const void*, size_t) override {
    writes++;
    return true;
  }
};

struct Given {  // to whom something was reported
  std::atomic<uint64_t> n{0};
};

struct Conversation {
  mon::Rng& r;
  std::unique_ptr<dap::Session> s = dap::Session::create();
  std::shared_ptr<Wire> in, out;
  std::unique_ptr<RawReader> rd;
  std::vector<std::shared_ptr<Probe>> probes;
  std::deque<Given> errs;  // one per error callback ever registered
  std::atomic<int> foreign{0}, closed{0}, closedOther{0};
  std::atomic<bool> ended{false};
  std::atomic<int64_t> lastX{0}, lastY{0};
  std::atomic<int> sent{0};
  int64_t seq = 1, tag = 1;
  bool registered = false, started = false, muted = false;
  std::string story;
  std::set<int64_t> seqs;             // numbers the session used
  std::atomic<mon::Gate*> hold{nullptr};  // what the handler of Y waits for
  std::atomic<int> handledX{0};

  explicit Conversation(mon::Rng& r) : r(r) {}

  void note(const char* what) {
    story += what;
    story += ' ';
    mon::desc(story);
    mon::progress();
  }
  uint64_t total() {
    uint64_t t = 0;
    for (auto& g : errs) {
      t += g.n;
    }
    return t;
  }
  void listen() {
    errs.emplace_back();
    auto* g = &errs.back();
    s->onError([g](const char* e) {
      CHECK(e != nullptr && e[0] != 0, "an error without text was reported");
      g->n++;
    });
    muted = false;
  }
  // Runs f, which must report an error to the current callback and no other.
  void refusedBy(const char* what, const std::function<void()>& f) {
    auto before = total(), mine = muted ? 0 : errs.back().n.load();
    f();
    if (muted) {
      CHECK(total() == before, "%s: reported to a callback that was replaced", what);
    } else {
      CHECK(errs.back().n > mine, "%s: was not reported", what);
      CHECK(total() - before == errs.back().n - mine, "%s: reported to a callback that was replaced", what);
    }
    mon::count("refusals");
  }
  void registerFirst() {
    s->registerHandler([this](const dap::EvX& e) {
      handledX++;
      lastX = int64_t(e.tag);
    });
    s->registerHandler([this](const dap::EvY& e) {
      if (auto* g = hold.exchange(nullptr)) {
        g->wait();
      }
      lastY = int64_t(e.tag);
    });
    s->registerHandler([](const dap::ReqB& q) {
      dap::RespB p;
      fill(p, q.tag, RESP);
      return p;
    });
    s->registerSentHandler([this](const dap::ResponseOrError<dap::RespB>&) { sent++; });
    registered = true;
  }
  std::shared_ptr<Probe> probe() {
    probes.push_back(std::make_shared<Probe>());
    return probes.back();
  }
  void again() {
    switch (r.below(5)) {
      case 0:
        note("connect");
        refusedBy("a second connect", [&] { s->connect(probe(), probe()); });
        break;
      case 1:
        note("connect-rw");
        refusedBy("a second connect", [&] { s->connect(probe()); });
        break;
      case 2:
        if (started) {
          note("bind");
          refusedBy("a second bind", [&] { s->bind(probe(), probe(), [this] { closedOther++; }); });
        }
        break;
      case 3:
        if (started) {
          note("bind-rw");
          refusedBy("a second bind", [&] { s->bind(probe(), [this] { closedOther++; }); });
        }
        break;
      default:
        if (started) {
          note("start");
          refusedBy("a second start", [&] { s->startProcessingMessages([this] { closedOther++; }); });
        }
    }
  }
  void registerAgain() {
    switch (r.below(4)) {
      case 0:
        note("event-again");
        refusedBy("a second handler for an event", [&] { s->registerHandler([this](const dap::EvX&) { foreign++; }); });
        break;
      case 1:
        note("request-again");
        refusedBy("a second handler for a request", [&] {
          s->registerHandler([this](const dap::ReqB&) {
            foreign++;
            return dap::RespB();
          });
        });
        break;
      case 2:
        note("request-again-callback");
        refusedBy("a second handler for a request", [&] {
          s->registerHandler([this](const dap::ReqB&, std::function<void(dap::RespB)> cb) {
            foreign++;
            cb(dap::RespB());
          });
        });
        break;
      default:
        note("sent-again");
        refusedBy("a second response-sent callback", [&] { s->registerSentHandler([this](const dap::ResponseOrError<dap::RespB>&) { foreign++; }); });
    }
  }
  void pump() {
    if (!started) {
      auto f = s->getPayload();
      if (f) {
        f();
      }
    }
  }
  // The next message of the session, numbered like no other.
  mj::Value next() {
    mj::Value v;
    CHECK(rd->next(&v), "the session's output ended");
    int64_t q = intField(v, "seq");
    CHECK(q > 0 && seqs.insert(q).second, "message number %lld was used before", (long long)q);
    return v;
  }
  // Repeated calls while messages wait behind a handler.
  void queued() {
    if (!started) {
      return;
    }
    note("queued(");
    mon::Gate gate;
    hold = &gate;
    in->put(frame::wrap(mj::text(msgEvent(seq++, "evY", tree(++tag, EVT)))));
    int64_t y = tag;
    int n = int(r.range(1, 8)), before = handledX;
    for (int k = 0; k < n; k++) {
      in->put(frame::wrap(mj::text(msgEvent(seq++, "evX", tree(++tag, EVT)))));
    }
    if (r.chance(70)) {
      mon::waitUntil([&] { return in->unread() == 0 && hold == nullptr; });
    }
    again();
    CHECK(handledX == before, "two handlers at a time");
    gate.open();
    mon::waitUntil([&] { return handledX == before + n && lastY == y && lastX == tag; });
    note(")");
    mon::count("queued_during_refusal", uint64_t(n));
  }
  void event() {
    bool x = r.chance(50);
    note(x ? "X" : "Y");
    in->put(frame::wrap(mj::text(msgEvent(seq++, x ? "evX" : "evY", tree(++tag, EVT)))));
    pump();
    auto& last = x ? lastX : lastY;
    mon::waitUntil([&] { return last == tag; });
    mon::count("events");
  }
  void request() {
    note("request");
    ++tag;
    int64_t q = seq++;
    int before = sent;
    in->put(frame::wrap(mj::text(msgRequest(q, "reqB", tree(tag, REQ)))));
    pump();
    mj::Value v = next();
    CHECK(strField(v, "type") == "response" && intField(v, "request_seq") == q, "expected the answer to request %lld, got %s", (long long)q, mj::text(v).c_str());
    auto* b = v.find("body");
    CHECK(b && intField(*b, "tag") == tag, "the answer is not that of the handler registered first: %s", mj::text(v).c_str());
    mon::waitUntil([&] { return sent > before; });
    mon::count("requests_answered");
  }
  void ask() {
    note("ask");
    auto p = sendKind(s.get(), "ABCDE"[r.below(5)], ++tag, r.chance(50));
    mj::Value v = next();
    if (r.chance(50)) {
      again();  // while it is pending
    }
    in->put(frame::wrap(mj::text(rawAnswer(p.kind, p.tag, seq++, intField(v, "seq")))));
    pump();
    p.await();
    auto bad = p.check();
    CHECK(bad.empty(), "request %c tag %lld completed wrongly: %s", p.kind, (long long)p.tag, bad.c_str());
    mon::count("requests_sent");
  }
  void bad() {
    note("bad");
    static const char* texts[] = {"{\"seq\":1,\"type\":\"event\",\"event\":\"nobody\"}", "{\"seq\":1,\"type\":\"request\",\"command\":\"nobody\"}", "{\"seq\":1,\"type\":\"what\"}", "{\"type\":\"event\",\"event\":\"evX\"}",
                                  "{\"seq\":1,\"type\":\"response\",\"request_seq\":999999,\"success\":true,\"command\":\"x\"}"};
    refusedBy("an invalid message", [&] {
      in->put(frame::wrap(texts[r.below(5)]));
      pump();
      event();  // so that it has been decoded
    });
    mon::count("invalid_messages");
  }
  void step() {
    switch (r.below(15)) {
      case 0: case 1: case 2: event(); break;
      case 14: queued(); break;
      case 3: case 4: request(); break;
      case 5: case 6: ask(); break;
      case 7: case 8: case 9: again(); break;
      case 10: registerAgain(); break;
      case 11: bad(); break;
      case 12:
        note("listen");
        listen();
        break;
      default:
        if (r.chance(40)) {
          note("mute");
          s->onError({});
          muted = true;
        }
    }
  }
  void onClosed() {
    CHECK(ended, "closure notified while the connection is open");
    closed++;
  }

  void run() {
    listen();
    bool pumped = r.chance(20);
    if (r.chance(50)) {
      registerFirst();
    }
    if (r.chance(25)) {
      // Several threads connect at once: one of them wins, the others are refused.
      int n = int(r.range(2, 4));
      note("race");
      std::vector<std::pair<std::shared_ptr<Wire>, std::shared_ptr<Wire>>> ws;
      for (int k = 0; k < n; k++) {
        ws.emplace_back(std::make_shared<Wire>(), std::make_shared<Wire>());
      }
      std::atomic<int> ready{0};
      std::vector<std::thread> ts;
      for (int k = 0; k < n; k++) {
        ts.emplace_back([&, k] {
          ready++;
          while (ready < n) {
            std::this_thread::yield();
          }
          s->connect(ws[size_t(k)].first, ws[size_t(k)].second);
        });
      }
      for (auto& t : ts) {
        t.join();
      }
      CHECK(total() >= uint64_t(n - 1), "%d of %d simultaneous connects were refused", int(total()), n);
      // The winner is the one that what is sent appears on.
      dap::EvZ z;
      fill(z, 7, EVT);
      s->send(z);
      int won = -1;
      for (int k = 0; k < n; k++) {
        if (ws[size_t(k)].second->written() > 0) {
          CHECK(won < 0, "the session wrote to two of the streams");
          won = k;
        }
      }
      CHECK(won >= 0, "the session is connected to none of the streams");
      in = ws[size_t(won)].first;
      out = ws[size_t(won)].second;
      rd.reset(new RawReader(out));
      CHECK(strField(next(), "event") == "evZ", "expected the event");
      losers = ws;
      losers.erase(losers.begin() + won);
      mon::count("simultaneous_connects", uint64_t(n));
    } else {
      Wire::Config c;
      c.maxRead = r.chance(50) ? 1 + r.below(100) : 0;
      c.seed = r.next();
      in = std::make_shared<Wire>(c);
      out = std::make_shared<Wire>();
      rd.reset(new RawReader(out));
      s->connect(in, out);
    }
    if (r.chance(30)) {
      again();
    }
    if (!registered) {
      registerFirst();
    }
    if (!pumped) {
      if (r.chance(50)) {
        s->startProcessingMessages([this] { onClosed(); });
        started = true;
      } else {
        // bind() on a connected session: the connection is refused, processing starts.
        refusedBy("bind after connect", [&] { s->bind(probe(), probe(), [this] { onClosed(); }); });
        started = true;
      }
    }
    int n = int(r.range(3, 25));
    for (int k = 0; k < n; k++) {
      step();
    }
    ended = true;
    bool byPeer = started && r.chance(60);
    if (byPeer) {
      in->end();
      mon::waitUntil([&] { return closed > 0; });
      note("ended");
      for (uint64_t k = r.below(3); k > 0; k--) {
        again();
      }
    }
    auto before = total();
    s.reset();
    CHECK(total() == before, "destroying the session reported an error");
    CHECK(closed == (started ? 1 : 0), "closure notified %d times", closed.load());
    CHECK(closedOther == 0, "the closed callback given with a refused call was invoked");
    CHECK(foreign == 0, "a handler or callback whose registration was refused was invoked");
    CHECK(in->isClosed() && out->isClosed(), "the streams of the session are left open");
    for (auto& p : probes) {
      CHECK(p->reads == 0 && p->writes == 0 && p->closes == 0, "streams of a refused connect were used: %d reads, %d writes, %d closes", p->reads.load(), p->writes.load(), p->closes.load());
      CHECK(p.use_count() == 1, "streams of a refused connect are kept after the session is gone");
    }
    for (auto& w : losers) {
      CHECK(!w.first->isClosed() && !w.second->isClosed() && w.second->written() == 0, "streams of a refused connect were used");
    }
    mon::count("foreign_streams", probes.size() + 2 * losers.size());
    mon::cover(mon::hash(story));
  }
  std::vector<std::pair<std::shared_ptr<Wire>, std::shared_ptr<Wire>>> losers;
};

// A message handed out does nothing until it is run, and then what the session would do.
void handedOut(mon::Rng& r) {
  auto s = dap::Session::create();
  auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
  std::vector<int64_t> log;
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->registerHandler([&](const dap::EvX& e) { log.push_back(e.tag); });
  s->registerHandler([&](const dap::ReqB& q) {
    log.push_back(q.tag);
    dap::RespB p;
    fill(p, q.tag, RESP);
    return p;
  });
  s->connect(in, out);
  int n = int(r.range(1, 30));
  mon::desc(mon::fmt("%d messages handed out", n));
  std::vector<std::pair<int64_t, std::function<void()>>> fs;
  std::set<int64_t> asked;
  for (int k = 1; k <= n; k++) {
    bool rq = r.chance(50);
    in->put(frame::wrap(mj::text(rq ? msgRequest(k, "reqB", tree(k, REQ)) : msgEvent(k, "evX", tree(k, EVT)))));
    auto f = s->getPayload();
    CHECK(f != nullptr, "no payload for message %d", k);
    fs.emplace_back(rq ? k : -k, f);
  }
  CHECK(log.empty() && out->written() == 0, "a message was handled before it was run");
  r.shuffle(fs);
  size_t skip = r.below(fs.size() + 1) / 3;
  RawReader rd(out);
  for (size_t k = skip; k < fs.size(); k++) {
    auto written = out->written();
    if (r.chance(30)) {
      std::thread([&] { fs[k].second(); }).join();
    } else {
      fs[k].second();
    }
    int64_t tag = std::abs(fs[k].first);
    CHECK(log.size() == k - skip + 1 && log.back() == tag, "running message %lld ran %zu handlers", (long long)tag, log.size() - (k - skip));
    if (fs[k].first > 0) {
      mj::Value v;
      CHECK(out->written() > written && rd.next(&v), "no answer written");
      CHECK(intField(v, "request_seq") == tag && v.find("body") && intField(*v.find("body"), "tag") == tag, "wrong answer to request %lld: %s", (long long)tag, mj::text(v).c_str());
    } else {
      CHECK(out->written() == written, "an event was answered");
    }
  }
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  fs.clear();
  s.reset();
  mon::count("messages_handed_out", uint64_t(n));
  mon::cover(mon::combine(uint64_t(n), mon::combine(skip, log.empty() ? 0 : uint64_t(log[0]))));
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c27");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (r.chance(10)) {
      handedOut(r);
    } else {
      Conversation c(r);
      c.run();
    }
    if (i < 3) {
      mon::sample(mon::st().caseDesc);
    }
  });
  return mon::finish();
}
