// C10: a failed request is reported as a failure, with the error text intact.
#include "sess.h"

#include "dap/network.h"

using namespace sess;

namespace {

std::string genText(mon::Rng& r, bool nul) {
  static const size_t edge[] = {1, 2, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 8192, 65535, 65536, 65537};
  std::string t;
  switch (r.below(5)) {
    case 0:
      t = mj::genString(r, nul);
      break;
    case 1: {
      static const char* f[] = {"%s", "%d%d%d%d%d%d%d%d", "%n", "100%", "%%", "%", "%9999999s", "%.*f", "success", "null", "true", " ", "\n", "{\"error\":1}", "\"", "\\", "\\u0000", "/"};
      t = f[r.below(18)];
      while (r.chance(40)) {
        t += f[r.below(18)];
      }
      break;
    }
    default: {
      size_t n = r.chance(2) ? 1000000 : edge[r.below(28)] + (r.chance(30) ? r.below(3) : 0);
      static const char* unit[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "%s", "ab\"\\\n"};
      const char* u = unit[r.below(6)];
      std::string pre = std::to_string(r.below(1000)) + ":";
      while (t.size() < n) {
        t += u;
        if (t.size() < pre.size()) {
          t += pre;
        }
      }
    }
  }
  if (t.empty()) {
    t = "e";
  }
  return t;
}

// Handlers of every kind that can fail, with arbitrary texts.
void texts(uint64_t i, mon::Rng& r) {
  auto link = makeLink(r, int(r.below(3)));
  auto a = dap::Session::create(), b = dap::Session::create();
  std::mutex m;
  std::map<int64_t, std::string> want;
  Deferrer def(2, r.next());
  Errors errs;
  a->onError([&](const char* e) { errs.add(e); });
  b->onError([&](const char* e) { errs.add(e); });
  auto text = [&](int64_t tag) {
    std::unique_lock<std::mutex> l(m);
    return want.at(tag);
  };
  b->registerHandler([&](const dap::ReqA& q) -> dap::ResponseOrError<dap::RespA> { return dap::Error(text(q.tag)); });
  b->registerHandler([&](const dap::ReqC& q) { return dap::Error(text(q.tag)); });
  b->registerHandler([&](const dap::ReqE& q, std::function<void(dap::ResponseOrError<dap::RespE>)> cb) {
    auto t = text(q.tag);
    auto f = [cb, t] { cb(dap::ResponseOrError<dap::RespE>(dap::Error(t))); };
    if (q.tag % 2) {
      def.add(f);
    } else {
      f();
    }
  });
  b->registerHandler([&](const dap::ReqB& q) -> dap::ResponseOrError<dap::RespB> {
    auto t = text(q.tag);
    return t.find('\0') == std::string::npos ? dap::Error("%s", t.c_str()) : dap::Error(t);
  });
  a->bind(link.aIn, link.aOut);
  b->bind(link.bIn, link.bOut);
  int n = int(r.range(1, 12));
  std::vector<Pending> ps;
  uint64_t sig = 0;
  for (int k = 0; k < n; k++) {
    auto t = genText(r, true);
    {
      std::unique_lock<std::mutex> l(m);
      want[k] = t;
    }
    sig = mon::hash(t, sig);
    mon::maximum("longest_text", t.size());
    ps.push_back(sendKind(a.get(), "ABCE"[r.below(4)], k, r.chance(40)));
  }
  for (auto& p : ps) {
    p.await();
    auto got = p.result();
    CHECK(got == "E:" + text(p.tag), "handler kind %c failed with '%s' (%zu bytes), the peer saw '%s' (%zu bytes)", p.kind, mon::show(text(p.tag)).c_str(), text(p.tag).size(), mon::show(got).c_str(), got.size() - 2);
    mon::progress();
  }
  CHECK(errs.size() == 0, "failing handlers reported a session error: %s", errs.last().c_str());
  def.finish();
  a.reset();
  b.reset();
  mon::count("error_texts", uint64_t(n));
  mon::cover(sig);
  if (i < 3) {
    mon::sample("error text '" + mon::show(want[0], 100) + "'");
  }
}

// Failed and malformed answers of a raw peer.
void answers(uint64_t i, mon::Rng& r) {
  auto toPeer = std::make_shared<Wire>();
  auto fromPeer = std::make_shared<Wire>();
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->bind(fromPeer, toPeer);
  RawReader rd(toPeer);
  int n = int(r.range(1, 20));
  std::vector<Pending> ps;
  std::vector<int64_t> seqs;
  for (int k = 0; k < n; k++) {
    ps.push_back(sendKind(s.get(), char('A' + r.below(5)), k, r.chance(50), r.next()));
    mj::Value v;
    CHECK(rd.next(&v), "output ended");
    seqs.push_back(intField(v, "seq"));
  }
  std::vector<size_t> order;
  for (size_t k = 0; k < size_t(n); k++) {
    order.push_back(k);
  }
  r.shuffle(order);
  auto odd = [&]() -> mj::Value {
    switch (r.below(7)) {
      case 0: return mj::Value();
      case 1: return mj::Value::integer(mj::genInt(r));
      case 2: return mj::Value::boolean(r.chance(50));
      case 3: return mj::Value::array();
      case 4: return mj::Value::object();
      case 5: return mj::Value::number(0.5);
      default: return mj::genValue(r, 3);
    }
  };
  for (auto k : order) {
    auto& p = ps[k];
    std::string cmd = std::string("req") + p.kind;
    mj::Value v = msgFailure(int64_t(k) + 1, seqs[k], cmd, "");
    std::string exact;  // the error text, if the answer gives one
    bool success = false;
    const char* what = "";
    switch (r.below(9)) {
      case 0:
        what = "message absent";
        v.erase("message");
        break;
      case 1:
        what = "message empty";
        break;
      case 2: {
        what = "message ill-typed";
        auto o = odd();
        if (o.kind == mj::String) {
          exact = o.s;
        }
        v.set("message", o);
        break;
      }
      case 3:
        what = "success absent";
        v = msgResponse(int64_t(k) + 1, seqs[k], cmd, tree(int64_t(k), RESP));
        v.erase("success");
        break;
      case 4: {
        what = "success ill-typed";
        v = msgResponse(int64_t(k) + 1, seqs[k], cmd, tree(int64_t(k), RESP));
        auto o = odd();
        if (o.kind == mj::Bool) {
          o = mj::Value::string("true");
        }
        v.set("success", o);
        break;
      }
      case 5: {
        what = "failure with a body";
        exact = genText(r, true);
        v.set("message", mj::Value::string(exact));
        v.set("body", r.chance(50) ? tree(int64_t(k), RESP) : odd());
        break;
      }
      case 6: {
        what = "failure with a success body";
        v.set("body", tree(int64_t(k), RESP));
        v.erase("message");
        break;
      }
      case 7: {
        what = "failure, command absent or different";
        exact = genText(r, true);
        v.set("message", mj::Value::string(exact));
        if (r.chance(50)) {
          v.erase("command");
        } else {
          v.set("command", mj::Value::string("reqG"));
        }
        break;
      }
      default:
        what = "success";
        success = true;
        v = msgResponse(int64_t(k) + 1, seqs[k], cmd, tree(p.tag, RESP));
    }
    for (size_t x = v.o.size(); x > 1; x--) {
      std::swap(v.o[x - 1], v.o[r.below(x)]);
    }
    auto text = mj::text(v, &r);
    fromPeer->put(frame::wrap(text));
    p.await();
    auto got = p.result();
    if (success) {
      CHECK(got == "R:" + std::to_string(p.tag), "a successful answer completed with '%s'", mon::show(got).c_str());
    } else {
      CHECK(got.size() > 2 && got[0] == 'E', "%s: the request completed with '%s', not an error: %s", what, mon::show(got).c_str(), mon::show(text, 400).c_str());
      if (!exact.empty()) {
        CHECK(got == "E:" + exact, "%s: error text '%s', want '%s'", what, mon::show(got).c_str(), mon::show(exact).c_str());
      }
    }
    CHECK(p.completions() == -1 || p.completions() == 1, "completed %d times", p.completions());
    mon::count(("answer: " + std::string(what)).c_str());
    mon::cover(mon::hash(text));
    mon::progress();
    if (i < 2) {
      mon::sample("answer " + mon::show(text, 200) + " -> " + mon::show(got, 60));
    }
  }
  s.reset();
}

// Sends that cannot reach anybody.
void unsendable(uint64_t, mon::Rng& r) {
  auto now = [&](dap::Session* s, const char* what) {
    char kind = char('A' + r.below(5));
    auto p = sendKind(s, kind, 5, r.chance(30), r.next());
    CHECK(p.ready(), "%s: the result of a send is not complete", what);
    auto got = p.result();
    CHECK(got.size() > 2 && got[0] == 'E', "%s: the result of a send is '%s'", what, got.c_str());
    dap::EvX e;
    fill(e, 5, EVT);
    s->send(e);  // must not crash or block
    CHECK(!s->send(dap::TypeOf<dap::EvX>::type(), &e), "%s: sending an event claims success", what);
    mon::count(("unsendable: " + std::string(what)).c_str());
    mon::progress();
  };
  auto s = dap::Session::create();
  Errors errs;
  if (r.chance(70)) {
    s->onError([&](const char* e) { errs.add(e); });
  }
  switch (r.below(7)) {
    case 6: {
      // The stream refuses single writes and accepts others.
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->bind(in, out);
      for (int k = 0; k < 12; k++) {
        out->refuse(int(r.range(1, 3)));
        auto p = sendKind(s.get(), char('A' + r.below(5)), k + 1, r.chance(30), r.next());
        if (out->takeRefused()) {
          CHECK(p.ready(), "a write of the request was refused, its result is not complete");
          CHECK(p.result()[0] == 'E', "a refused request completed with success");
          mon::count("unsendable: one write refused");
        } else {
          CHECK(!p.ready(), "the stream accepted the request, its result is complete: %s", p.result().c_str());
        }
        dap::EvX e;
        fill(e, 5, EVT);
        out->refuse(int(r.range(1, 3)));
        bool ok = s->send(dap::TypeOf<dap::EvX>::type(), &e);
        CHECK(ok == !out->takeRefused(), "sending an event returned %d, against what the stream did", int(ok));
      }
      break;
    }
    case 0:
      now(s.get(), "not connected");
      break;
    case 1: {
      auto p = dap::pipe(), q = dap::pipe();
      s->bind(p, q);
      q->close();
      now(s.get(), "pipe closed");
      break;
    }
    case 2: {
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->bind(in, out);
      auto before = sendKind(s.get(), 'A', 1);
      out->close();
      now(s.get(), "stream closed after traffic");
      CHECK(!before.ready(), "a pending request completed by itself: %s", before.result().c_str());
      break;
    }
    case 3: {
      Wire::Config c;
      c.failAfter = int64_t(r.below(150));
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>(c);
      s->bind(in, out);
      for (int k = 0; k < 20; k++) {
        auto p = sendKind(s.get(), 'B', k);
        bool fit = out->failures == 0;
        CHECK(p.ready() == !fit, "stream %s the request, its result is %s", fit ? "accepted" : "refused", p.ready() ? "complete" : "not complete");
        if (!fit) {
          CHECK(p.result()[0] == 'E', "a refused request completed with success");
          break;
        }
      }
      now(s.get(), "stream refuses writes");
      break;
    }
    case 4: {
      auto server = dap::net::Server::create();
      mon::Gate g;
      std::shared_ptr<dap::ReaderWriter> peer;
      int port = 0;
      for (int k = 0; k < 50 && !port; k++) {
        int p = 20000 + int(r.below(40000));
        if (server->start(p, [&](const std::shared_ptr<dap::ReaderWriter>& c) {
              peer = c;
              g.open();
            })) {
          port = p;
        }
      }
      if (!port) {
        mon::inconclusive("no free port");
      }
      auto c = dap::net::connect("127.0.0.1", port);
      if (!c) {
        mon::inconclusive("cannot connect");
      }
      g.wait();
      s->bind(c);
      if (r.chance(50)) {
        c->close();
        now(s.get(), "connection closed locally");
      } else {
        peer->close();
        // The first bytes sent after the peer has gone may still be accepted.
        mon::waitUntil([&] {
          dap::EvX e;
          return !s->send(dap::TypeOf<dap::EvX>::type(), &e);
        });
        now(s.get(), "connection closed by the peer");
      }
      server->stop();
      break;
    }
    default: {
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      out->close();
      s->connect(in, out);
      now(s.get(), "connected to a closed stream");
    }
  }
  s.reset();
}

// The value a result arrives in is copied, moved and assigned like any other: it
// says error exactly if the last thing given to it was one, with that text.
void values(uint64_t, mon::Rng& r) {
  using R = dap::ResponseOrError<dap::RespB>;
  struct M {
    bool error = false;
    int64_t tag = 0;
    std::string text;
    bool known = true;  // not moved from
  };
  std::vector<R> v(4);
  std::vector<M> m(4);
  auto check = [&](size_t k) {
    if (!m[k].known) {
      return;
    }
    CHECK(bool(v[k].error) == m[k].error, "a result says error=%d, was given %d", int(bool(v[k].error)), int(m[k].error));
    if (m[k].error) {
      CHECK(v[k].error.message == m[k].text, "error text '%s', was given '%s'", mon::show(v[k].error.message).c_str(), mon::show(m[k].text).c_str());
    } else if (m[k].tag) {
      auto e = verify(v[k].response, m[k].tag, RESP);
      CHECK(e.empty(), "the response of a result: %s", e.c_str());
    }
  };
  for (int n = 0; n < 60; n++) {
    size_t a = r.below(4), b = r.below(4);
    switch (r.below(8)) {
      case 0: case 1: {
        m[a] = M();
        m[a].tag = r.range(1, 1000);
        dap::RespB p;
        fill(p, m[a].tag, RESP);
        if (r.chance(50)) {
          v[a] = R(p);
        } else {
          v[a] = p;
        }
        break;
      }
      case 2: case 3: {
        m[a] = M();
        m[a].error = true;
        m[a].text = mj::genString(r) + "!";
        dap::Error e(m[a].text);
        if (r.chance(50)) {
          v[a] = R(e);
        } else {
          v[a] = R(dap::Error(m[a].text));
        }
        break;
      }
      case 4: {
        R c(v[b]);
        v[a] = c;
        m[a] = m[b];
        break;
      }
      case 5: {
        v[a] = v[b];
        m[a] = m[b];
        break;
      }
      case 6: {
        if (a != b) {
          v[a] = std::move(v[b]);
          m[a] = m[b];
          m[b].known = false;
        }
        break;
      }
      default: {
        R c(std::move(v[b]));
        M mc = m[b];
        m[b].known = false;
        v[a] = std::move(c);
        m[a] = mc;
      }
    }
    for (size_t k = 0; k < 4; k++) {
      check(k);
    }
  }
  mon::count("result_values");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c10");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(5)) {
      case 0: unsendable(i, r); break;
      case 1: case 2: texts(i, r); values(i, r); break;
      default: answers(i, r);
    }
  });
  return mon::finish();
}
