// C11: the response-sent notification fires once per response, after it was written.
#include "sess.h"

using namespace sess;

namespace {

// Incremental parser of what the session wrote: tags of complete responses.
struct Seen {
  std::shared_ptr<Wire> out;
  std::mutex m;
  size_t pos = 0;
  std::map<int64_t, mj::Value> bySeq;  // request_seq -> response

  explicit Seen(std::shared_ptr<Wire> o) : out(o) {}
  // Whether the complete response to this request is on the stream.
  bool has(int64_t reqSeq, mj::Value* v) {
    std::unique_lock<std::mutex> l(m);
    scan();
    auto it = bySeq.find(reqSeq);
    if (it == bySeq.end()) {
      return false;
    }
    *v = it->second;
    return true;
  }
  size_t size() {
    std::unique_lock<std::mutex> l(m);
    scan();
    return bySeq.size();
  }

 private:
  void scan() {
    std::string log = out->log();
    while (pos < log.size()) {
      size_t h = log.find("\r\n\r\n", pos);
      if (h == std::string::npos) {
        return;
      }
      size_t len = strtoull(log.c_str() + pos + 15, nullptr, 10);
      if (h + 4 + len > log.size()) {
        return;
      }
      mj::Value v;
      CHECK(mj::parse(log.substr(h + 4, len), &v), "not JSON on the stream");
      if (strField(v, "type") == "response") {
        bySeq[intField(v, "request_seq")] = v;
      }
      pos = h + 4 + len;
    }
  }
};

void run(uint64_t i, mon::Rng& r) {
  Wire::Config cfg;
  cfg.slowWrites = r.chance(80);
  cfg.seed = r.next();
  auto out = std::make_shared<Wire>(cfg);
  auto in = std::make_shared<Wire>();
  auto s = dap::Session::create();
  Seen seen(out);
  Deferrer def(int(r.range(1, 4)), r.next());
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  registerAll(s.get(), &def, [](const char*, int64_t, const std::string&) {});
  std::mutex m;
  std::map<std::pair<char, int64_t>, int> notified;
  unsigned mask = unsigned(r.below(32));  // which types have a callback
  if (r.chance(30)) {
    mask = 31;
  }
  // The request's number is its tag + 1000, so the callback can find its response.
  auto note = [&](char kind, int64_t tag, bool failed) {
    mj::Value v;
    CHECK(seen.has(tag + 1000, &v), "%c tag %lld: notified before the whole response was written", kind, (long long)tag);
    CHECK(strField(v, "command") == std::string("req") + kind, "callback of %c invoked for a response to %s", kind, strField(v, "command").c_str());
    CHECK(v.find("success")->b == !failed, "callback saw another outcome than was written");
    std::unique_lock<std::mutex> l(m);
    notified[{kind, tag}]++;
    mon::progress();
  };
  std::map<std::string, int64_t> byError;  // error text -> tag
  auto gotError = [&](char kind, const std::string& text) {
    int64_t tag;
    {
      std::unique_lock<std::mutex> l(m);
      auto it = byError.find(std::string(1, kind) + text);
      CHECK(it != byError.end(), "callback of %c with an error text that was not sent: '%s'", kind, mon::show(text).c_str());
      tag = it->second;
    }
    note(kind, tag, true);
  };
#define SENT(X)                                                                                                       \
  if (mask & (1u << (#X[0] - 'A'))) {                                                                                 \
    s->registerSentHandler([&](const dap::ResponseOrError<dap::Resp##X>& p) {                                         \
      if (p.error) {                                                                                                  \
        gotError(#X[0], p.error.message);                                                                             \
      } else {                                                                                                        \
        auto bad = verify(p.response, p.response.tag, RESP);                                                          \
        CHECK(bad.empty(), "callback got another response than was sent: %s", bad.c_str());                          \
        note(#X[0], p.response.tag, false);                                                                           \
      }                                                                                                               \
    });                                                                                                               \
  }
  SENT(A) SENT(B) SENT(C) SENT(D) SENT(E)
  s->bind(in, out);
  int n = int(r.range(1, 80));
  mon::desc(mon::fmt("n=%d mask=%u slow=%d", n, mask, cfg.slowWrites));
  std::vector<char> kind(static_cast<size_t>(n));
  size_t expected = 0;
  uint64_t sig = mask;
  for (int k = 0; k < n; k++) {
    kind[size_t(k)] = char('A' + r.below(5));
    std::unique_lock<std::mutex> l(m);
    if (answerFails(kind[size_t(k)], k)) {
      byError[std::string(1, kind[size_t(k)]) + tagError(k)] = k;
    }
    expected += (mask >> (kind[size_t(k)] - 'A')) & 1;
    sig = mon::combine(sig, uint64_t(kind[size_t(k)]));
  }
  mon::Threads ts;
  bool senders = r.chance(50);
  std::atomic<bool> stop{false};
  if (senders) {
    // Other traffic competes for the stream.
    for (int t = 0; t < 2; t++) {
      ts.go([&] {
        for (int k = 0; k < 60 && !stop; k++) {
          dap::EvX e;
          fill(e, 100000 + k, EVT);
          s->send(e);
          usleep(100);
        }
      });
    }
  }
  for (int k = 0; k < n; k++) {
    in->put(frame::wrap(mj::text(msgRequest(k + 1000, std::string("req") + kind[size_t(k)], tree(k, REQ)))));
    mon::jitter(r, 10);
  }
  mon::waitUntil([&] { return seen.size() >= size_t(n); });
  mon::waitUntil([&] {
    std::unique_lock<std::mutex> l(m);
    return notified.size() >= expected;
  });
  stop = true;
  ts.join();
  def.finish();
  in->end();
  s.reset();
  for (int k = 0; k < n; k++) {
    for (char c = 'A'; c <= 'E'; c++) {
      auto it = notified.find({c, int64_t(k)});
      int got = it == notified.end() ? 0 : it->second;
      int want = c == kind[size_t(k)] && ((mask >> (c - 'A')) & 1);
      CHECK(got == want, "response-sent callback of %c invoked %d times for a response to %c tag %d (callbacks %u)", c, got, kind[size_t(k)], k, mask);
    }
  }
  CHECK(errs.size() == 0, "valid traffic reported an error: %s", errs.last().c_str());
  mon::count("responses", uint64_t(n));
  mon::count("notifications", expected);
  mon::cover(sig);
  if (i < 3) {
    mon::sample(mon::fmt("%d responses, callbacks for mask %u: %zu notifications, competing senders=%d", n, mask, expected, senders));
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c11");
  mon::startWatchdog();
  mon::cases(100, run);
  return mon::finish();
}
