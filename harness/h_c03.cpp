// C03: everything a session writes is a stream of whole, correctly numbered messages.
#include "sess.h"

using namespace sess;

namespace {

struct Expect {
  char kind;
  int64_t tag;
  int answers = 0;
};

void mixed(uint64_t i, mon::Rng& r) {
  Wire::Config cfg;
  cfg.slowWrites = r.chance(80);
  cfg.seed = r.next();
  auto out = std::make_shared<Wire>(cfg);
  auto in = std::make_shared<Wire>();
  Errors errs;
  Deferrer def(int(r.range(1, 4)), r.next());
  auto s = dap::Session::create();
  s->onError([&](const char* e) { errs.add(e); });
  std::atomic<int> handled{0};
  registerAll(s.get(), &def, [&](const char* k, int64_t tag, const std::string& bad) {
    CHECK(bad.empty(), "%s tag %lld: %s", k, (long long)tag, bad.c_str());
    handled++;
    mon::progress();
  });
  s->bind(in, out);
  int threads = int(r.range(0, 6)), per = int(r.range(1, 40)), incoming = int(r.range(0, 120));
  mon::desc(mon::fmt("mixed threads=%d per=%d incoming=%d slow=%d", threads, per, incoming, cfg.slowWrites));
  mon::Threads ts;
  mon::Barrier bar(threads + 1);
  std::mutex m;
  std::map<int64_t, char> sentReq;  // tag -> kind
  std::map<int64_t, char> sentEv;
  std::vector<Pending> keep;
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, t, tr] {
      bar.arrive();
      for (int k = 0; k < per; k++) {
        int64_t tag = 1000000 + t * 1000 + k;
        int kind = int(tr->below(8));
        {
          std::unique_lock<std::mutex> l(m);
          if (kind < 5) {
            sentReq[tag] = char('A' + kind);
          } else {
            sentEv[tag] = char('X' + kind - 5);
          }
        }
        if (kind < 5) {
          auto p = sendKind(s.get(), char('A' + kind), tag, tr->chance(50));
          CHECK(!p.ready(), "an unanswered request completed: %s", p.result().c_str());
          std::unique_lock<std::mutex> l(m);
          keep.push_back(std::move(p));
        } else if (kind == 5) {
          dap::EvX e;
          fill(e, tag, EVT);
          s->send(e);
        } else if (kind == 6) {
          dap::EvY e;
          fill(e, tag, EVT);
          s->send(e);
        } else {
          dap::EvZ e;
          fill(e, tag, EVT);
          CHECK(s->send(dap::TypeOf<dap::EvZ>::type(), &e), "sending an event on an open session failed");
        }
        mon::progress();
        mon::jitter(*tr, 5);
      }
    });
  }
  // Requests of the peer, numbered as it likes.
  std::map<int64_t, Expect> asked;
  bar.arrive();
  static const int64_t odd[] = {0, -1, -5, 1ll << 31, (1ll << 31) - 1, 1ll << 32, (1ll << 32) + 1, 1ll << 40, (1ll << 53) + 1, INT64_MAX, INT64_MIN, INT64_MAX - 1};
  for (int k = 0; k < incoming; k++) {
    int64_t seq = r.chance(20) ? odd[r.below(12)] : (r.chance(10) ? int64_t(r.next() >> 1) : k + 1);
    char kind = char('A' + r.below(5));
    if (asked.count(seq)) {
      continue;
    }
    Expect e;
    e.kind = kind;
    e.tag = k + 1;
    asked[seq] = e;
    in->put(frame::wrap(mj::text(msgRequest(seq, std::string("req") + kind, tree(e.tag, REQ)), r.chance(30) ? &r : nullptr)));
    mon::jitter(r, 10);
  }
  size_t total = asked.size() + size_t(threads) * size_t(per);
  RawReader rd(out);
  std::set<int64_t> seqs;
  std::set<int64_t> seenReq, seenEv;
  uint64_t sig = 0;
  auto take = [&](const mj::Value& v) {
    auto seq = intField(v, "seq");
    CHECK(seq > 0, "message number %lld", (long long)seq);
    CHECK(seqs.insert(seq).second, "message number %lld used twice", (long long)seq);
    auto type = strField(v, "type");
    if (type == "request") {
      auto a = v.find("arguments");
      CHECK(a, "request without arguments");
      auto tag = intField(*a, "tag");
      std::unique_lock<std::mutex> l(m);
      CHECK(sentReq.count(tag) && strField(v, "command") == std::string("req") + sentReq[tag], "a request that was not sent: %s", mon::show(mj::text(v), 300).c_str());
      CHECK(seenReq.insert(tag).second, "request tag %lld written twice", (long long)tag);
      CHECK(mj::equal(*a, tree(tag, REQ)), "request content differs: %s", mon::show(mj::text(v), 500).c_str());
      sig = mon::combine(sig, 1);
    } else if (type == "event") {
      auto a = v.find("body");
      CHECK(a, "event without body");
      auto tag = intField(*a, "tag");
      std::unique_lock<std::mutex> l(m);
      CHECK(sentEv.count(tag) && strField(v, "event") == std::string("ev") + sentEv[tag], "an event that was not sent: %s", mon::show(mj::text(v), 300).c_str());
      CHECK(seenEv.insert(tag).second, "event tag %lld written twice", (long long)tag);
      CHECK(mj::equal(*a, tree(tag, EVT)), "event content differs: %s", mon::show(mj::text(v), 500).c_str());
      sig = mon::combine(sig, 2);
    } else {
      CHECK(type == "response", "message type '%s'", type.c_str());
      auto q = intField(v, "request_seq");
      auto it = asked.find(q);
      CHECK(it != asked.end(), "a response names request %lld, which was never received", (long long)q);
      auto& e = it->second;
      CHECK(++e.answers == 1, "request %lld answered twice", (long long)q);
      CHECK(strField(v, "command") == std::string("req") + e.kind, "response to %c names command '%s'", e.kind, strField(v, "command").c_str());
      auto ok = v.find("success");
      CHECK(ok && ok->kind == mj::Bool, "response without success flag");
      CHECK(ok->b == !answerFails(e.kind, e.tag), "response to %c tag %lld has success=%d", e.kind, (long long)e.tag, ok->b);
      if (ok->b) {
        auto b = v.find("body");
        CHECK(b && mj::equal(*b, tree(e.tag, RESP)), "response content differs: %s", mon::show(mj::text(v), 500).c_str());
      } else {
        CHECK(strField(v, "message") == tagError(e.tag), "error text differs");
      }
      sig = mon::combine(sig, 3);
    }
    mon::progress();
  };
  mj::Value v;
  for (size_t k = 0; k < total; k++) {
    CHECK(rd.next(&v), "the output ended after %zu of %zu messages", k, total);
    take(v);
  }
  ts.join();
  mon::waitUntil([&] { return handled >= int(asked.size()); });
  def.finish();
  s.reset();
  // Nothing else may have been written, not even part of a message.
  while (rd.next(&v)) {
    take(v);
  }
  CHECK(!rd.pending(), "the output ends in the middle of a message");
  CHECK(seqs.size() == total, "%zu messages written, %zu expected", seqs.size(), total);
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("messages_written", total);
  mon::count("responses_written", asked.size());
  mon::maximum("write_calls", out->writes);
  mon::cover(sig);
  if (i < 4) {
    mon::sample(mon::fmt("%d sending threads x %d messages, %zu requests answered, slow writes=%d", threads, per, asked.size(), cfg.slowWrites));
  }
}

// A long-lived session: numbers never come back.
void longRun(uint64_t, mon::Rng& r) {
  auto out = std::make_shared<Wire>();
  auto in = std::make_shared<Wire>();
  auto s = dap::Session::create();
  s->bind(in, out);
  int n = mon::opt().thorough ? 300000 : 70000;
  mon::desc(mon::fmt("longRun n=%d", n));
  int threads = 4;
  mon::Threads ts;
  for (int t = 0; t < threads; t++) {
    ts.go([&, t] {
      for (int k = 0; k < n / threads; k++) {
        dap::EvX e;
        e.tag = t * 1000000 + k;
        s->send(e);
        mon::progress();
      }
    });
  }
  ts.join();
  s.reset();
  std::string log = out->log();
  std::unordered_set<int64_t> seqs;
  std::unordered_set<int64_t> tags;
  size_t p = 0;
  while (p < log.size()) {
    size_t h = log.find("\r\n\r\n", p);
    CHECK(h != std::string::npos && log.compare(p, 15, "Content-Length:") == 0, "broken stream at %zu: '%s'", p, mon::show(log.substr(p, 80)).c_str());
    size_t len = strtoull(log.c_str() + p + 15, nullptr, 10);
    CHECK(h + 4 + len <= log.size(), "truncated message");
    mj::Value v;
    CHECK(mj::parse(log.substr(h + 4, len), &v), "not JSON: %s", mon::show(log.substr(h + 4, len)).c_str());
    auto q = intField(v, "seq");
    CHECK(q > 0 && seqs.insert(q).second, "message number %lld used twice or not positive", (long long)q);
    CHECK(tags.insert(intField(*v.find("body"), "tag")).second, "event written twice");
    p = h + 4 + len;
    mon::progress();
  }
  CHECK(seqs.size() == size_t(n / threads * threads), "%zu messages written", seqs.size());
  mon::maximum("longest_session", seqs.size());
  mon::count("messages_written", seqs.size());
  (void)r;
}

// The stream refuses whole messages now and then: what it accepted is still a
// sequence of whole messages with numbers of their own, each sent once.
void refusing(uint64_t, mon::Rng& r) {
  Wire::Config cfg;
  cfg.refuseMessages = int(r.range(5, 60));
  cfg.slowWrites = r.chance(50);
  cfg.seed = r.next();
  auto out = std::make_shared<Wire>(cfg);
  auto in = std::make_shared<Wire>();
  auto s = dap::Session::create();
  std::atomic<int> handled{0};
  Deferrer def(2, r.next());
  registerAll(s.get(), &def, [&](const char*, int64_t, const std::string&) {
    handled++;
    mon::progress();
  });
  s->bind(in, out);
  int threads = int(r.range(1, 5)), per = int(r.range(5, 150)), incoming = int(r.range(0, 60));
  mon::desc(mon::fmt("refusing threads=%d per=%d incoming=%d refused=%d%%", threads, per, incoming, cfg.refuseMessages));
  for (int k = 0; k < incoming; k++) {
    in->put(frame::wrap(mj::text(msgRequest(k + 1, std::string("req") + char('A' + r.below(5)), tree(k + 1, REQ)))));
  }
  mon::Threads ts;
  for (int t = 0; t < threads; t++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, t, tr] {
      for (int k = 0; k < per; k++) {
        int64_t tag = 1000000 + t * 1000 + k;
        if (tr->chance(60)) {
          sendKind(s.get(), char('A' + tr->below(5)), tag, tr->chance(50));
        } else {
          dap::EvX e;
          fill(e, tag, EVT);
          s->send(e);
        }
        mon::progress();
      }
    });
  }
  ts.join();
  mon::waitUntil([&] { return handled >= incoming; });
  def.finish();
  // Destruction may cut off what is still to be written: wait for all of it.
  size_t total = size_t(threads * per + incoming);
  mon::waitUntil([&] {
    std::string log = out->log();
    size_t n = 0, p = 0;
    while (true) {
      size_t h = log.find("\r\n\r\n", p);
      if (h == std::string::npos || h < p + 15) {
        break;
      }
      p = h + 4 + strtoull(log.c_str() + p + 15, nullptr, 10);
      if (p > log.size()) {
        break;
      }
      n++;
    }
    return n + out->refusals() >= total;
  });
  s.reset();
  std::string log = out->log();
  std::set<int64_t> seqs, tags, answered;
  size_t p = 0;
  while (p < log.size()) {
    size_t h = log.find("\r\n\r\n", p);
    CHECK(h != std::string::npos && log.compare(p, 15, "Content-Length:") == 0, "broken stream at %zu: '%s'", p, mon::show(log.substr(p, 80)).c_str());
    size_t len = strtoull(log.c_str() + p + 15, nullptr, 10);
    CHECK(h + 4 + len <= log.size(), "truncated message");
    mj::Value v;
    CHECK(mj::parse(log.substr(h + 4, len), &v), "not JSON: %s", mon::show(log.substr(h + 4, len)).c_str());
    auto q = intField(v, "seq");
    CHECK(q > 0 && seqs.insert(q).second, "message number %lld used twice or not positive", (long long)q);
    auto type = strField(v, "type");
    if (type == "response") {
      CHECK(answered.insert(intField(v, "request_seq")).second, "request %lld answered twice", (long long)intField(v, "request_seq"));
    } else {
      auto b = v.find(type == "event" ? "body" : "arguments");
      CHECK(b && tags.insert(intField(*b, "tag")).second, "a message was written twice");
    }
    p = h + 4 + len;
    mon::progress();
  }
  size_t refused = out->takeRefused();
  CHECK(seqs.size() + refused == total, "%zu messages written and %zu refused of %zu", seqs.size(), refused, total);
  mon::count("messages_written", seqs.size());
  mon::count("messages_refused", refused);
}

// Large and awkward message sizes: the header gives the exact byte length.
void sizes(uint64_t, mon::Rng& r) {
  Wire::Config cfg;
  cfg.slowWrites = r.chance(50);
  cfg.seed = r.next();
  auto out = std::make_shared<Wire>(cfg);
  auto in = std::make_shared<Wire>();
  auto s = dap::Session::create();
  s->bind(in, out);
  RawReader rd(out);
  int n = int(r.range(1, 12));
  static const size_t edge[] = {0, 1, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 9999, 10000, 65535, 65536, 100000, 300000};
  for (int k = 0; k < n; k++) {
    dap::EvX e;
    e.tag = k;
    std::string t = mj::genString(r);
    size_t len = edge[r.below(16)] + r.below(3);
    static const char* unit[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n", "\""};
    std::string u = unit[r.below(6)];
    while (t.size() < len) {
      t += u;
    }
    e.text = t;
    s->send(e);
    mj::Value v;
    std::string body;
    CHECK(rd.next(&v, &body), "output ended");
    CHECK(intField(*v.find("body"), "tag") == k && strField(*v.find("body"), "text") == t, "content of a %zu byte message differs", t.size());
    mon::maximum("largest_message", body.size());
    mon::progress();
  }
  s.reset();
  mon::count("messages_written", uint64_t(n));
  mon::count("sized_messages", uint64_t(n));
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c03");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (i == 0 && mon::opt().shard == 0) {
      longRun(i, r);
    } else if (r.chance(20)) {
      sizes(i, r);
    } else if (r.chance(12)) {
      refusing(i, r);
    } else {
      mixed(i, r);
    }
  });
  return mon::finish();
}
