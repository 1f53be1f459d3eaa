// C01: every answered request completes exactly once with its own answer.
#include "sess.h"

using namespace sess;

namespace {

const char kinds[] = "ABCDE";

// Two library sessions talking to each other.
void e2e(uint64_t i, mon::Rng& r) {
  int threads = int(r.range(1, 8));
  int per = int(r.range(1, 30));
  int linkKind = int(r.below(3));
  auto link = makeLink(r, linkKind);
  mon::desc(mon::fmt("e2e threads=%d per=%d link=%d", threads, per, linkKind));
  Errors ea, eb;
  std::mutex m;
  std::map<int64_t, int> handled;
  bool bothWays = r.chance(40);
  Deferrer def(int(r.range(1, 3)), r.next());
  auto a = dap::Session::create();
  auto b = dap::Session::create();
  auto onReq = [&](const char* k, int64_t tag, const std::string& bad) {
    CHECK(bad.empty(), "request %s arrived with wrong content: %s", k, bad.c_str());
    std::unique_lock<std::mutex> l(m);
    handled[tag]++;
  };
  a->onError([&](const char* e) { ea.add(e); });
  b->onError([&](const char* e) { eb.add(e); });
  registerAll(b.get(), &def, onReq);
  if (bothWays) {
    registerAll(a.get(), &def, onReq);
  }
  a->bind(link.aIn, link.aOut);
  b->bind(link.bIn, link.bOut);
  mon::Threads ts;
  mon::Barrier bar(threads);
  std::atomic<uint64_t> done{0}, sig{0};
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    auto* s = (bothWays && t % 2) ? b.get() : a.get();
    ts.go([&, t, tr, s] {
      bar.arrive();
      std::vector<Pending> out;
      for (int k = 0; k < per; k++) {
        int64_t tag = int64_t(t) * 1000000 + k + int64_t(i % 1000) * 100000000;
        out.push_back(sendKind(s, kinds[tr->below(5)], tag, tr->chance(40), tr->next()));
        mon::jitter(*tr, 10);
        mon::progress();
        if (tr->chance(30)) {
          auto p = std::move(out.back());
          out.pop_back();
          p.await();
          auto bad = p.check();
          CHECK(bad.empty(), "request %c tag %lld completed wrongly: %s", p.kind, (long long)p.tag, bad.c_str());
          CHECK(p.completions() <= 1, "request %c tag %lld completed %d times", p.kind, (long long)p.tag, p.completions());
          done++;
        }
      }
      tr->shuffle(out);
      for (auto& p : out) {
        p.await();
        auto bad = p.check();
        CHECK(bad.empty(), "request %c tag %lld completed wrongly: %s", p.kind, (long long)p.tag, bad.c_str());
        done++;
        mon::progress();
      }
      for (auto& p : out) {
        CHECK(p.completions() <= 1, "request %c tag %lld completed %d times", p.kind, (long long)p.tag, p.completions());
      }
    });
  }
  ts.join();
  def.finish();
  CHECK(done == uint64_t(threads) * uint64_t(per), "completed %llu", (unsigned long long)done.load());
  {
    std::unique_lock<std::mutex> l(m);
    CHECK(handled.size() == done, "%zu requests handled, %llu sent", handled.size(), (unsigned long long)done.load());
    for (auto& h : handled) {
      CHECK(h.second == 1, "request tag %lld handled %d times", (long long)h.first, h.second);
    }
  }
  CHECK(ea.size() == 0 && eb.size() == 0, "valid traffic reported an error: %s", (ea.last() + eb.last()).c_str());
  a.reset();
  b.reset();
  mon::count("e2e_requests_completed", done);
  mon::cover(mon::combine(mon::hash("e2e", 3), mon::combine(uint64_t(threads * 100 + per), uint64_t(linkKind * 2 + bothWays))));
}

// The session against a raw peer that chooses the order of the answers.
void raw(uint64_t i, mon::Rng& r) {
  Wire::Config cfg;
  cfg.maxRead = r.chance(30) ? 1 + r.below(500) : 0;
  cfg.seed = r.next();
  auto toPeer = std::make_shared<Wire>();
  auto fromPeer = std::make_shared<Wire>(cfg);
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->bind(fromPeer, toPeer);

  bool streaming = r.chance(50);
  int threads = int(r.range(1, 6));
  int total = int(r.chance(3) ? r.range(1000, 2500) : r.range(1, 120));
  mon::desc(mon::fmt("raw streaming=%d threads=%d total=%d", streaming, threads, total));
  std::vector<Pending> pend(static_cast<size_t>(total));
  std::mutex sentMutex;
  mon::Threads ts;
  std::atomic<int> next{0};
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      while (true) {
        int k = next++;
        if (k >= total) {
          return;
        }
        auto p = sendKind(s.get(), kinds[tr->below(5)], k + 1, tr->chance(60), tr->next());
        {
          std::unique_lock<std::mutex> l(sentMutex);
          pend[size_t(k)] = std::move(p);
        }
        mon::jitter(*tr, 5);
        mon::progress();
      }
    });
  }
  RawReader rd(toPeer);
  struct Got {
    char kind;
    int64_t tag, seq;
    bool answered = false;
  };
  std::vector<Got> got;
  std::map<int64_t, int64_t> seqs;
  int64_t mySeq = 1;
  uint64_t order = 0;
  size_t bogus = 0, answered = 0;
  std::set<int64_t> known;
  auto put = [&](const mj::Value& v) { fromPeer->put(frame::wrap(mj::text(v, r.chance(30) ? &r : nullptr))); };
  auto sendBogus = [&]() {
    int64_t q;
    int64_t base = got.empty() ? 1 : got[r.below(got.size())].seq;
    switch (r.below(13)) {
      case 0: q = 0; break;
      case 1: q = -1; break;
      case 2: q = base + (1ll << 32); break;
      case 3: q = base - (1ll << 32); break;
      case 4: q = INT64_MIN; break;
      case 5: q = INT64_MAX; break;
      case 6: q = base + (1ll << 31); break;
      case 7: q = 1000000 + int64_t(r.below(1000000)); break;
      case 8: q = -base; break;
      case 9: q = base + (1ll << (16 + r.below(40))); break;
      default: q = 0; {  // one that was answered already
        std::vector<int64_t> d;
        for (auto& g : got) {
          if (g.answered) {
            d.push_back(g.seq);
          }
        }
        if (!d.empty()) {
          q = r.pick(d);
        }
      }
    }
    for (auto& g : got) {
      if (!g.answered && g.seq == q) {
        return;
      }
    }
    if (q > 0 && q <= total * 4 && !known.count(q)) {
      return;  // might be allocated later
    }
    char kind = kinds[r.below(5)];
    mj::Value v;
    switch (r.below(8)) {
      case 0:
        v = msgFailure(mySeq++, q, std::string("req") + kind, "bogus");
        break;
      case 1:
        v = msgResponse(mySeq++, q, std::string("req") + kind, tree(77, RESP));
        v.erase("success");
        break;
      case 2:
        v = msgResponse(mySeq++, q, std::string("req") + kind, tree(77, RESP));
        v.erase("request_seq");
        break;
      case 3:
        v = msgResponse(mySeq++, q, std::string("req") + kind, tree(77, RESP));
        v.set("request_seq", mj::Value::string(std::to_string(base)));
        break;
      case 4:
        v = msgResponse(mySeq++, q, std::string("req") + kind, tree(77, RESP));
        v.set("request_seq", mj::Value::number(double(base) + 0.5));
        break;
      default:
        v = msgResponse(mySeq++, q, std::string("req") + kind, tree(r.range(1, total), RESP));
    }
    put(v);
    bogus++;
  };
  auto answer = [&](Got& g) {
    put(rawAnswer(g.kind, g.tag, mySeq++, g.seq));
    g.answered = true;
    answered++;
    order = mon::combine(order, uint64_t(g.tag));
  };
  size_t outstandingMax = 0;
  mj::Value v;
  while (int(got.size()) < total) {
    CHECK(rd.next(&v), "the session's output ended");
    CHECK(strField(v, "type") == "request", "unexpected message type");
    Got g;
    auto cmd = strField(v, "command");
    CHECK(cmd.size() == 4 && cmd.compare(0, 3, "req") == 0, "unexpected command '%s'", cmd.c_str());
    g.kind = cmd[3];
    g.seq = intField(v, "seq");
    auto args = v.find("arguments");
    CHECK(args, "request without arguments");
    g.tag = intField(*args, "tag");
    CHECK(mj::equal(*args, tree(g.tag, REQ)), "request content differs: %s", mon::show(mj::text(*args), 400).c_str());
    CHECK(seqs.emplace(g.seq, g.tag).second, "sequence number %lld used twice", (long long)g.seq);
    known.insert(g.seq);
    got.push_back(g);
    outstandingMax = std::max(outstandingMax, got.size() - answered);
    mon::progress();
    if (streaming) {
      if (r.chance(20)) {
        sendBogus();
      }
      while (r.chance(40)) {
        auto& x = got[r.below(got.size())];
        if (!x.answered) {
          answer(x);
        }
      }
    }
  }
  ts.join();
  // The rest, in a random, a sorted or a reversed order.
  std::vector<size_t> rest;
  for (size_t k = 0; k < got.size(); k++) {
    if (!got[k].answered) {
      rest.push_back(k);
    }
  }
  switch (r.below(4)) {
    case 0: break;
    case 1: std::reverse(rest.begin(), rest.end()); break;
    default: r.shuffle(rest);
  }
  size_t probes = 0;
  std::vector<bool> isAnswered(size_t(total) + 1, false);
  for (auto& g : got) {
    if (g.answered) {
      isAnswered[size_t(g.tag)] = true;
    }
  }
  for (size_t n = 0; n < rest.size(); n++) {
    auto& g = got[rest[n]];
    if (r.chance(25)) {
      sendBogus();
    }
    answer(g);
    isAnswered[size_t(g.tag)] = true;
    mon::progress();
    if (r.chance(rest.size() > 300 ? 1 : 10)) {
      // Once this one has completed, everything sent before it was processed:
      // only answered requests may be complete.
      pend[size_t(g.tag) - 1].await();
      for (int k = 0; k < total; k++) {
        bool rdy = pend[size_t(k)].ready();
        CHECK(rdy == isAnswered[size_t(k) + 1], "request tag %d is %scomplete although it was %sanswered", k + 1, rdy ? "" : "not ", isAnswered[size_t(k) + 1] ? "" : "not ");
      }
      probes++;
    }
  }
  for (auto& p : pend) {
    p.await();
    auto bad = p.check();
    CHECK(bad.empty(), "request %c tag %lld completed wrongly: %s", p.kind, (long long)p.tag, bad.c_str());
    mon::progress();
  }
  // Everything is answered: more answers for anything must change nothing.
  for (int k = 0, n = int(r.below(12)); k < n; k++) {
    sendBogus();
  }
  auto last = sendKind(s.get(), 'B', total + 5, true);
  CHECK(rd.next(&v), "the session's output ended");
  put(rawAnswer('B', total + 5, mySeq++, intField(v, "seq")));
  last.await();
  CHECK(last.check().empty(), "last request completed wrongly: %s", last.check().c_str());
  for (auto& p : pend) {
    auto bad = p.check();
    CHECK(bad.empty(), "request %c tag %lld was changed by a later answer: %s", p.kind, (long long)p.tag, bad.c_str());
    CHECK(p.completions() == -1 || p.completions() == 1, "request %c tag %lld completed %d times", p.kind, (long long)p.tag, p.completions());
  }
  CHECK(errs.size() >= bogus, "%zu answers matched no request, %zu errors were reported", bogus, errs.size());
  if (bogus == 0) {
    CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  }
  fromPeer->end();
  s.reset();
  mon::count("raw_requests_completed", uint64_t(total));
  mon::count("unmatched_answers", bogus);
  mon::count("ready_probes", probes);
  mon::maximum("most_outstanding", outstandingMax);
  mon::cover(order);
  if (i < 6) {
    mon::sample(mon::fmt("raw peer: %d requests from %d threads, %zu outstanding, %zu unmatched answers, streaming=%d", total, threads, outstandingMax, bogus, streaming));
  }
}

// Responses the peer may legally give with optional parts left out.
void bare(uint64_t, mon::Rng& r) {
  auto toPeer = std::make_shared<Wire>();
  auto fromPeer = std::make_shared<Wire>();
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->bind(fromPeer, toPeer);
  RawReader rd(toPeer);
  mj::Value v;
  int n = int(r.range(1, 10));
  std::vector<dap::future<dap::ResponseOrError<dap::ConfigurationDoneResponse>>> a;
  std::vector<dap::future<dap::ResponseOrError<dap::ThreadsResponse>>> b;
  std::vector<std::pair<int64_t, int>> q;
  for (int k = 0; k < n; k++) {
    a.push_back(s->send(dap::ConfigurationDoneRequest{}));
    CHECK(rd.next(&v), "output ended");
    q.emplace_back(intField(v, "seq"), 0);
    b.push_back(s->send(dap::ThreadsRequest{}));
    CHECK(rd.next(&v), "output ended");
    q.emplace_back(intField(v, "seq"), 1 + k);
  }
  r.shuffle(q);
  int64_t seq = 1;
  for (auto& x : q) {
    mj::Value m;
    if (x.second == 0) {
      m = msgResponse(seq++, x.first, "configurationDone", mj::Value::object());
      switch (r.below(3)) {
        case 0: m.erase("body"); break;
        case 1: m.erase("command"); break;
        default:;
      }
    } else {
      auto body = mj::Value::object();
      auto arr = mj::Value::array();
      for (int t = 0; t < x.second; t++) {
        auto o = mj::Value::object();
        o.set("id", mj::Value::integer(t));
        o.set("name", mj::Value::string("t" + std::to_string(x.second)));
        arr.a.push_back(o);
      }
      body.set("threads", arr);
      m = msgResponse(seq++, x.first, "threads", body);
    }
    fromPeer->put(frame::wrap(mj::text(m, &r)));
  }
  for (int k = 0; k < n; k++) {
    auto ra = a[size_t(k)].get();
    CHECK(!ra.error, "configurationDone completed with error '%s'", ra.error.message.c_str());
    auto rb = b[size_t(k)].get();
    CHECK(!rb.error, "threads completed with error '%s'", rb.error.message.c_str());
    CHECK(int(rb.response.threads.size()) == k + 1, "threads answer of another request");
    for (auto& t : rb.response.threads) {
      CHECK(t.name == "t" + std::to_string(k + 1), "threads answer of another request");
    }
  }
  CHECK(errs.size() == 0, "valid answers reported an error: %s", errs.last().c_str());
  s.reset();
  mon::count("bare_answers", uint64_t(2 * n));
}

// More requests pending at once than any 16-bit count holds.
void many(mon::Rng& r) {
  mon::Undisturbed calm;
  auto toPeer = std::make_shared<Wire>();
  auto fromPeer = std::make_shared<Wire>();
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->bind(fromPeer, toPeer);
  const int total = 66500;
  mon::desc(mon::fmt("%d requests pending at once", total));
  std::vector<Pending> pend;
  RawReader rd(toPeer);
  std::vector<std::pair<int64_t, int64_t>> got;  // tag, seq
  std::set<int64_t> seqs;
  for (int k = 0; k < total; k++) {
    pend.push_back(sendKind(s.get(), 'B', k + 1, true));
    mj::Value v;
    CHECK(rd.next(&v), "the session's output ended");
    got.emplace_back(k + 1, intField(v, "seq"));
    CHECK(seqs.insert(got.back().second).second, "sequence number %lld used twice", (long long)got.back().second);
    mon::progress();
  }
  if (r.chance(70)) {
    r.shuffle(got);
  }
  int64_t mySeq = 1;
  for (auto& g : got) {
    fromPeer->put(frame::wrap(mj::text(rawAnswer('B', g.first, mySeq++, g.second))));
  }
  for (auto& p : pend) {
    p.await();
    auto bad = p.check();
    CHECK(bad.empty(), "request %c tag %lld of %d completed wrongly: %s", p.kind, (long long)p.tag, total, bad.c_str());
    mon::progress();
  }
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  fromPeer->end();
  s.reset();
  mon::maximum("most_outstanding", uint64_t(total));
}

// The peer has the request, and answers it, before the stream says that writing it failed.
void lateFailure(uint64_t, mon::Rng& r) {
  struct Late : public dap::Writer {
    std::shared_ptr<Wire> w = std::make_shared<Wire>();
    std::atomic<bool> fail{false};
    std::atomic<mon::Gate*> until{nullptr};
    bool isOpen() override { return w->isOpen(); }
    void close() override { w->close(); }
    bool write(const void* b, size_t n) override {
      bool header = n >= 14 && memcmp(b, "Content-Length", 14) == 0;
      bool ok = w->write(b, n);
      if (header || !fail) {
        return ok;
      }
      if (auto* g = until.load()) {
        g->wait();
      }
      return false;
    }
  };
  auto out = std::make_shared<Late>();
  auto in = std::make_shared<Wire>();
  auto s = dap::Session::create();
  s->bind(in, out);
  RawReader rd(out->w);
  int n = int(r.range(1, 12));
  mon::desc(mon::fmt("%d requests, writes that fail after the answer", n));
  for (int k = 1; k <= n; k++) {
    bool late = r.chance(60);
    bool answered = r.chance(70);
    mon::Gate gate;
    out->until = late && answered ? &gate : nullptr;
    out->fail = late;
    dap::ReqB q;
    fill(q, k, REQ);
    std::atomic<int> done{0};
    std::string bad;
    mon::Threads ts;
    ts.go([&] {
      mj::Value v;
      CHECK(rd.next(&v), "the session's output ended");
      if (answered) {
        in->put(frame::wrap(mj::text(rawAnswer('B', k, k, intField(v, "seq")))));
      }
    });
    bool sent = s->send(dap::TypeOf<dap::ReqB>::type(), dap::TypeOf<dap::RespB>::type(), &q, [&](const void* p, const dap::Error* e) {
      done++;
      bad = e ? "error" : verify(*reinterpret_cast<const dap::RespB*>(p), k, RESP);
      gate.open();
    });
    ts.join();
    if (answered && (sent || done > 0)) {
      mon::waitUntil([&] { return done > 0; });
      gate.wait();
      CHECK(bad.empty(), "request completed wrongly: %s", bad.c_str());
    }
    CHECK(done + (sent ? 0 : 1) == (answered || !sent ? 1 : 0), "a request whose write %s and which was%s answered completed %d times%s", late ? "failed late" : "succeeded", answered ? "" : " not", done.load(), sent ? "" : " and was reported as not sent");
    mon::count(late && answered ? "answered_before_the_write_failed" : "late_others");
    mon::progress();
    if (!answered && sent) {
      break;  // it stays pending, with what it refers to gone
    }
  }
  in->end();
  s.reset();
}

// Requests the stream refused are not outstanding: answers to them match nothing.
void refused(uint64_t, mon::Rng& r) {
  Wire::Config cfg;
  cfg.failAfter = int64_t(r.below(1200));
  auto toPeer = std::make_shared<Wire>(cfg);
  auto fromPeer = std::make_shared<Wire>();
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->bind(fromPeer, toPeer);
  mon::desc(mon::fmt("refused after %lld bytes", (long long)cfg.failAfter));
  std::vector<Pending> ps;
  int n = int(r.range(2, 25));
  for (int k = 0; k < n; k++) {
    ps.push_back(sendKind(s.get(), kinds[r.below(5)], k + 1, true));
  }
  // Which ones got through?
  std::map<int64_t, int64_t> seqOf;
  std::set<int64_t> used;
  toPeer->end();
  RawReader rd(toPeer);
  mj::Value v;
  while (rd.next(&v)) {
    seqOf[intField(*v.find("arguments"), "tag")] = intField(v, "seq");
    used.insert(intField(v, "seq"));
  }
  std::vector<int64_t> order;
  for (int64_t q = 1; q <= n + 3; q++) {
    order.push_back(q);
  }
  r.shuffle(order);
  size_t bogus = 0;
  for (auto q : order) {
    int64_t tag = 0;
    for (auto& p : seqOf) {
      if (p.second == q) {
        tag = p.first;
      }
    }
    bogus += tag == 0;
    char kind = tag ? ps[size_t(tag) - 1].kind : 'B';
    fromPeer->put(frame::wrap(mj::text(rawAnswer(kind, tag ? tag : 4242, q, q))));
  }
  for (auto& p : ps) {
    if (seqOf.count(p.tag)) {
      p.await();
    }
  }
  mon::waitUntil([&] { return errs.size() >= bogus; });
  fromPeer->end();
  s.reset();
  for (auto& p : ps) {
    CHECK(p.completions() == 1, "request tag %lld (%s by the stream) completed %d times", (long long)p.tag, seqOf.count(p.tag) ? "accepted" : "refused", p.completions());
    if (seqOf.count(p.tag)) {
      CHECK(p.check().empty(), "request tag %lld completed wrongly: %s", (long long)p.tag, p.check().c_str());
    } else {
      CHECK(p.result()[0] == 'E', "a refused request completed with success");
    }
  }
  mon::count("refused_requests", uint64_t(n) - seqOf.size());
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c01");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (i == 0 && mon::opt().shard == 2) {
      many(r);
    }
    switch (r.below(12)) {
      case 0: bare(i, r); break;
      case 11: lateFailure(i, r); break;
      case 10: refused(i, r); break;
      case 1: case 2: case 3: e2e(i, r); break;
      default: raw(i, r);
    }
  });
  return mon::finish();
}
