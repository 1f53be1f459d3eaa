// Shared pieces of the session harnesses: test message types covering every
// handler signature, an instrumented byte stream, and a raw peer that speaks the
// protocol without using the library.
#ifndef VERIF_SESS_H
#define VERIF_SESS_H

#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/typeof.h"

#include "frame.h"
#include "minijson.h"
#include "mon.h"

#include <algorithm>

namespace dap {

#define VERIF_REQUEST(X, NAME)                                             \
  struct Resp##X : public Response {                                       \
    integer tag = 0;                                                       \
    optional<string> text;                                                 \
    optional<array<integer>> nums;                                         \
    optional<object> extra;                                                \
  };                                                                       \
  struct Req##X : public Request {                                         \
    using Response = Resp##X;                                              \
    integer tag = 0;                                                       \
    optional<string> text;                                                 \
    optional<array<integer>> nums;                                         \
    optional<integer> how;                                                 \
  };                                                                       \
  DAP_STRUCT_TYPEINFO(Resp##X, "", DAP_FIELD(tag, "tag"),                  \
                      DAP_FIELD(text, "text"), DAP_FIELD(nums, "nums"),    \
                      DAP_FIELD(extra, "extra"));                          \
  DAP_STRUCT_TYPEINFO(Req##X, NAME, DAP_FIELD(tag, "tag"),                 \
                      DAP_FIELD(text, "text"), DAP_FIELD(nums, "nums"),    \
                      DAP_FIELD(how, "how"))

VERIF_REQUEST(A, "reqA");  // ResponseOrError<R>(const Req&)
VERIF_REQUEST(B, "reqB");  // R(const Req&)
VERIF_REQUEST(C, "reqC");  // Error(const Req&)
VERIF_REQUEST(D, "reqD");  // void(const Req&, std::function<void(R)>)
VERIF_REQUEST(E, "reqE");  // void(const Req&, std::function<void(ResponseOrError<R>)>)
VERIF_REQUEST(F, "reqF");  // spare: sent back to the peer
VERIF_REQUEST(G, "reqG");  // spare: never registered

#define VERIF_EVENT(X, NAME)                                                                                       \
  struct Ev##X : public Event {                                                                                    \
    integer tag = 0;                                                                                               \
    optional<string> text;                                                                                         \
    optional<array<integer>> nums;                                                                                 \
  };                                                                                                               \
  DAP_STRUCT_TYPEINFO(Ev##X, NAME, DAP_FIELD(tag, "tag"), DAP_FIELD(text, "text"), DAP_FIELD(nums, "nums"))

VERIF_EVENT(X, "evX");
VERIF_EVENT(Y, "evY");
VERIF_EVENT(Z, "evZ");

}  // namespace dap

namespace sess {

// --------------------------------------------------------------------------
// Content derived from a tag, so that any mix-up between messages shows.
// --------------------------------------------------------------------------
inline bool tagFails(int64_t tag) { return mon::mix(uint64_t(tag) ^ 0x55 ^ mon::caseSalt()) % 4 == 0; }

inline std::string tagText(int64_t tag, uint64_t salt) {
  uint64_t h = mon::mix(uint64_t(tag) * 31 + salt + mon::caseSalt());
  static const size_t lens[] = {0, 1, 5, 15, 16, 40, 100, 255, 256, 257, 700, 1500};
  size_t n = lens[h % 12];
  if (h % 97 == 0) {
    n = 5000;
  } else if (h % 1501 == 0) {
    n = 20000 + h % 60000;
  }
  std::string s = std::to_string(tag) + ":";
  static const char* bits[] = {"x", "%s", "\"", "\\", "\n", "\xc3\xa9", "{", "}", "\xf0\x9f\x98\x80", "Content-Length: 3\r\n\r\n", "[", "\x01"};
  uint64_t g = h;
  while (s.size() < n) {
    g = mon::mix(g);
    s += bits[g % 12];
  }
  return s;
}
inline std::vector<int64_t> tagNums(int64_t tag) {
  uint64_t h = mon::mix(uint64_t(tag) ^ 0x1234 ^ mon::caseSalt());
  std::vector<int64_t> v;
  for (size_t i = 0; i < h % 5; i++) {
    v.push_back(int64_t(mon::mix(h + i)));
  }
  return v;
}
inline std::string tagError(int64_t tag) { return "error of " + tagText(tag, 7); }

template <typename T>
void fill(T& m, int64_t tag, uint64_t salt) {
  m.tag = tag;
  if (mon::mix(uint64_t(tag) + salt + mon::caseSalt()) % 3) {
    m.text = tagText(tag, salt);
  }
  auto n = tagNums(tag);
  if (!n.empty()) {
    dap::array<dap::integer> a;
    for (auto x : n) {
      a.push_back(x);
    }
    m.nums = a;
  }
}
// Empty if the message is exactly the one derived from its tag.
template <typename T>
std::string verify(const T& m, int64_t tag, uint64_t salt) {
  if (m.tag != tag) {
    return mon::fmt("tag %lld, want %lld", (long long)int64_t(m.tag), (long long)tag);
  }
  bool hasText = mon::mix(uint64_t(tag) + salt + mon::caseSalt()) % 3 != 0;
  if (m.text.has_value() != hasText) {
    return "optional text presence differs";
  }
  if (hasText && m.text.value() != tagText(tag, salt)) {
    return "text '" + mon::show(m.text.value()) + "', want '" + mon::show(tagText(tag, salt)) + "'";
  }
  auto n = tagNums(tag);
  if (m.nums.has_value() != !n.empty()) {
    return "optional array presence differs";
  }
  if (!n.empty()) {
    auto& a = m.nums.value();
    if (a.size() != n.size()) {
      return "array size differs";
    }
    for (size_t i = 0; i < n.size(); i++) {
      if (int64_t(a[i]) != n[i]) {
        return "array element differs";
      }
    }
  }
  return "";
}
// The same content as JSON.
inline mj::Value tree(int64_t tag, uint64_t salt) {
  auto v = mj::Value::object();
  v.set("tag", mj::Value::integer(tag));
  if (mon::mix(uint64_t(tag) + salt + mon::caseSalt()) % 3) {
    v.set("text", mj::Value::string(tagText(tag, salt)));
  }
  auto n = tagNums(tag);
  if (!n.empty()) {
    auto a = mj::Value::array();
    for (auto x : n) {
      a.a.push_back(mj::Value::integer(x));
    }
    v.set("nums", a);
  }
  return v;
}
constexpr uint64_t REQ = 1, RESP = 2, EVT = 3;

// --------------------------------------------------------------------------
// Wire: a one-directional in-memory byte stream with its own synchronisation.
// --------------------------------------------------------------------------
class Wire : public dap::ReaderWriter {
 public:
  struct Config {
    bool slowWrites = false;    // yield in the middle of every write
    size_t maxRead = 0;         // limit bytes per read (random up to this)
    bool keepLog = true;        // keep all bytes ever written
    bool drain = true;          // after close, reads return what is left
    int64_t fullAfter = -1;     // writes block, until closed, once this many bytes were accepted
    int64_t failAfter = -1;     // writes fail once this many bytes were accepted
    int refuseMessages = 0;     // percentage of messages refused as a whole (nothing written)
    uint64_t seed = 1;
  };
  Wire() : rng(1) {}
  explicit Wire(const Config& c) : cfg(c), rng(c.seed) {}

  bool isOpen() override {
    std::unique_lock<std::mutex> l(m);
    return !closed && !eof;
  }
  void close() override {
    std::unique_lock<std::mutex> l(m);
    closed = true;
    closes++;
    cv.notify_all();
  }
  // The other side ends the stream: data already written can still be read.
  void end() {
    std::unique_lock<std::mutex> l(m);
    ended = true;
    cv.notify_all();
  }
  size_t read(void* buffer, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    while (true) {
      if (closed && (!cfg.drain || pos == data.size())) {
        return 0;
      }
      if (pos < data.size()) {
        break;
      }
      if (ended) {
        eof = true;
        return 0;
      }
      cv.wait(l);
    }
    size_t c = std::min(n, data.size() - pos);
    if (cfg.maxRead) {
      c = std::min<size_t>(c, 1 + rng.below(cfg.maxRead));
    }
    memcpy(buffer, data.data() + pos, c);
    pos += c;
    if (!cfg.keepLog && pos > 65536) {
      data.erase(0, pos);
      pos = 0;
    }
    return c;
  }
  bool write(const void* buffer, size_t n) override {
    auto p = reinterpret_cast<const char*>(buffer);
    std::unique_lock<std::mutex> l(m);
    inWrite++;
    if (inWrite > 1) {
      overlaps++;
    }
    bool ok = true;
    if (cfg.refuseMessages && n >= 14 && memcmp(p, "Content-Length", 14) == 0 && rng.chance(cfg.refuseMessages)) {
      refused++;
      inWrite--;
      writes++;
      return false;
    }
    if (refuseIn > 0 && --refuseIn == 0) {
      refused++;
      inWrite--;
      writes++;
      return false;
    }
    if (cfg.fullAfter >= 0 && int64_t(data.size() + n) > cfg.fullAfter) {
      stuck++;
      cv.wait(l, [&] { return closed || ended; });
    }
    if (closed || ended) {
      ok = false;
    } else if (cfg.failAfter >= 0 && int64_t(data.size() + n) > cfg.failAfter) {
      size_t part = size_t(std::max<int64_t>(0, cfg.failAfter - int64_t(data.size())));
      data.append(p, part);
      failures++;
      ok = false;
    } else if (cfg.slowWrites && n > 1) {
      size_t k = 1 + rng.below(n - 1);
      bool sleep = rng.chance(20);
      data.append(p, k);
      cv.notify_all();
      l.unlock();
      if (sleep) {
        usleep(50);
      } else {
        std::this_thread::yield();
      }
      l.lock();
      data.append(p + k, n - k);
      cv.notify_all();
    } else {
      data.append(p, n);
      cv.notify_all();
    }
    inWrite--;
    writes++;
    return ok;
  }
  void put(const std::string& s) {
    std::unique_lock<std::mutex> l(m);
    data += s;
    cv.notify_all();
  }
  std::string log() {
    std::unique_lock<std::mutex> l(m);
    return data;
  }
  size_t written() {
    std::unique_lock<std::mutex> l(m);
    return data.size();
  }
  size_t unread() {
    std::unique_lock<std::mutex> l(m);
    return data.size() - pos;
  }
  // The k-th write from now fails and leaves nothing; the next ones succeed again.
  void refuse(int k) {
    std::unique_lock<std::mutex> l(m);
    refuseIn = k;
  }
  size_t refusals() {
    std::unique_lock<std::mutex> l(m);
    return refused;
  }
  // Number of writes refused so since the last call; stops refusing.
  size_t takeRefused() {
    std::unique_lock<std::mutex> l(m);
    refuseIn = 0;
    size_t n = refused;
    refused = 0;
    return n;
  }
  // Writes that found the stream full.
  size_t stuckWrites() {
    std::unique_lock<std::mutex> l(m);
    return stuck;
  }
  bool isClosed() {
    std::unique_lock<std::mutex> l(m);
    return closed;
  }

  Config cfg;
  std::mutex m;
  std::condition_variable cv;
  std::string data;
  size_t pos = 0;
  bool closed = false, ended = false, eof = false;
  size_t stuck = 0, refused = 0;
  int refuseIn = 0;
  int closes = 0, inWrite = 0, overlaps = 0, failures = 0;
  uint64_t writes = 0;
  mon::Rng rng;
};

// --------------------------------------------------------------------------
// Raw peer: reads whole messages from a Wire and parses them strictly.
// --------------------------------------------------------------------------
class RawReader {
 public:
  explicit RawReader(std::shared_ptr<dap::Reader> r) : r(r) {}
  // False at the end of the stream. Malformed output of the session is a violation.
  bool next(mj::Value* v, std::string* body = nullptr) {
    static const std::string key = "Content-Length:";
    size_t hdr;
    while ((hdr = buf.find("\r\n\r\n")) == std::string::npos) {
      if (!more()) {
        return false;
      }
    }
    CHECK(buf.compare(0, key.size(), key) == 0, "stream written by the session does not start with a header: '%s'", mon::show(buf).c_str());
    std::string num = buf.substr(key.size(), hdr - key.size());
    size_t b = num.find_first_not_of(" \t");
    CHECK(b != std::string::npos && num.find_first_not_of("0123456789", b) == std::string::npos, "bad length in header '%s'", mon::show(buf.substr(0, hdr)).c_str());
    size_t len = strtoull(num.c_str() + b, nullptr, 10);
    while (buf.size() < hdr + 4 + len) {
      if (!more()) {
        return false;
      }
    }
    std::string text = buf.substr(hdr + 4, len);
    buf.erase(0, hdr + 4 + len);
    std::string err;
    CHECK(mj::parse(text, v, &err) && v->kind == mj::Object, "message written by the session is not a JSON object (%s): '%s'", err.c_str(), mon::show(text, 600).c_str());
    if (body) {
      *body = text;
    }
    return true;
  }
  bool pending() { return !buf.empty(); }

 private:
  bool more() {
    char c[4096];
    size_t n = r->read(c, sizeof c);
    if (n == 0) {
      return false;
    }
    buf.append(c, n);
    return true;
  }
  std::shared_ptr<dap::Reader> r;
  std::string buf;
};

inline int64_t intField(const mj::Value& v, const char* k) {
  auto f = v.find(k);
  CHECK(f && f->kind == mj::Int, "message has no integer '%s': %s", k, mon::show(mj::text(v), 500).c_str());
  return f->i;
}
inline std::string strField(const mj::Value& v, const char* k) {
  auto f = v.find(k);
  CHECK(f && f->kind == mj::String, "message has no string '%s': %s", k, mon::show(mj::text(v), 500).c_str());
  return f->s;
}

inline mj::Value msgRequest(int64_t seq, const std::string& cmd, const mj::Value& args) {
  auto v = mj::Value::object();
  v.set("seq", mj::Value::integer(seq));
  v.set("type", mj::Value::string("request"));
  v.set("command", mj::Value::string(cmd));
  v.set("arguments", args);
  return v;
}
inline mj::Value msgEvent(int64_t seq, const std::string& ev, const mj::Value& body) {
  auto v = mj::Value::object();
  v.set("seq", mj::Value::integer(seq));
  v.set("type", mj::Value::string("event"));
  v.set("event", mj::Value::string(ev));
  v.set("body", body);
  return v;
}
inline mj::Value msgResponse(int64_t seq, int64_t reqSeq, const std::string& cmd, const mj::Value& body) {
  auto v = mj::Value::object();
  v.set("seq", mj::Value::integer(seq));
  v.set("type", mj::Value::string("response"));
  v.set("request_seq", mj::Value::integer(reqSeq));
  v.set("success", mj::Value::boolean(true));
  v.set("command", mj::Value::string(cmd));
  v.set("body", body);
  return v;
}
inline mj::Value msgFailure(int64_t seq, int64_t reqSeq, const std::string& cmd, const std::string& message) {
  auto v = mj::Value::object();
  v.set("seq", mj::Value::integer(seq));
  v.set("type", mj::Value::string("response"));
  v.set("request_seq", mj::Value::integer(reqSeq));
  v.set("success", mj::Value::boolean(false));
  v.set("command", mj::Value::string(cmd));
  v.set("message", mj::Value::string(message));
  return v;
}

// --------------------------------------------------------------------------
// Deferred answers: run later, in random order, on other threads.
// --------------------------------------------------------------------------
class Deferrer {
 public:
  Deferrer(int threads, uint64_t seed, bool perturb = true) {
    for (int i = 0; i < threads; i++) {
      uint64_t s = mon::combine(seed, uint64_t(i));
      ts.go([this, s, perturb] {
        mon::Rng r(s);
        while (true) {
          std::function<void()> f;
          {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return stop || !q.empty(); });
            if (q.empty()) {
              return;
            }
            size_t k = r.below(q.size());
            std::swap(q[k], q.back());
            f = std::move(q.back());
            q.pop_back();
          }
          if (perturb) {
            mon::jitter(r, 20);
          }
          f();
          mon::progress();
        }
      });
    }
  }
  void add(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m);
    q.push_back(std::move(f));
    cv.notify_one();
  }
  // Runs everything that was added, then ends.
  void finish() {
    {
      std::unique_lock<std::mutex> l(m);
      stop = true;
      cv.notify_all();
    }
    ts.join();
  }
  ~Deferrer() { finish(); }

 private:
  std::mutex m;
  std::condition_variable cv;
  bool stop = false;
  std::vector<std::function<void()>> q;
  mon::Threads ts;
};

// Registers handlers for all five request signatures, answering by tag.
// onRequest is called first thing in every handler.
inline void registerAll(dap::Session* s, Deferrer* def, const std::function<void(const char*, int64_t, const std::string&)>& onRequest) {
  using namespace dap;
  s->registerHandler([=](const ReqA& q) -> ResponseOrError<RespA> {
    onRequest("reqA", q.tag, verify(q, q.tag, REQ));
    if (tagFails(q.tag)) {
      return Error(tagError(q.tag));
    }
    RespA p;
    fill(p, q.tag, RESP);
    return p;
  });
  s->registerHandler([=](const ReqB& q) {
    onRequest("reqB", q.tag, verify(q, q.tag, REQ));
    RespB p;
    fill(p, q.tag, RESP);
    return p;
  });
  s->registerHandler([=](const ReqC& q) -> Error {
    onRequest("reqC", q.tag, verify(q, q.tag, REQ));
    return Error(tagError(q.tag));
  });
  s->registerHandler([=](const ReqD& q, std::function<void(RespD)> cb) {
    int64_t tag = q.tag;
    onRequest("reqD", tag, verify(q, tag, REQ));
    auto f = [=] {
      RespD p;
      fill(p, tag, RESP);
      cb(p);
    };
    if (def && mon::mix(uint64_t(tag) ^ 0x77) % 2) {
      def->add(f);
    } else {
      f();
    }
  });
  s->registerHandler([=](const ReqE& q, std::function<void(ResponseOrError<RespE>)> cb) {
    int64_t tag = q.tag;
    onRequest("reqE", tag, verify(q, tag, REQ));
    auto f = [=] {
      if (tagFails(tag)) {
        cb(Error(tagError(tag)));
      } else {
        RespE p;
        fill(p, tag, RESP);
        cb(p);
      }
    };
    if (def && mon::mix(uint64_t(tag) ^ 0x77) % 3) {
      def->add(f);
    } else {
      f();
    }
  });
}

// Whether the answer to a request of this kind and tag is an error.
inline bool answerFails(char kind, int64_t tag) {
  return kind == 'C' || ((kind == 'A' || kind == 'E') && tagFails(tag));
}

template <typename R>
std::string verifyAnswer(char kind, int64_t tag, const dap::ResponseOrError<R>& got) {
  if (answerFails(kind, tag)) {
    if (!got.error) {
      return "success, want an error";
    }
    if (got.error.message != tagError(tag)) {
      return "error '" + mon::show(got.error.message) + "', want '" + mon::show(tagError(tag)) + "'";
    }
    return "";
  }
  if (got.error) {
    return "error '" + mon::show(got.error.message) + "', want success";
  }
  return verify(got.response, tag, RESP);
}

// A pair of connected full-duplex endpoints.
struct Link {
  std::shared_ptr<dap::Reader> aIn, bIn;
  std::shared_ptr<dap::Writer> aOut, bOut;
  std::shared_ptr<Wire> ab, ba;  // set when built from Wires
};

inline Link makeLink(mon::Rng& r, int kind) {
  Link l;
  if (kind == 0) {
    auto ab = dap::pipe(), ba = dap::pipe();
    l.aOut = ab;
    l.bIn = ab;
    l.bOut = ba;
    l.aIn = ba;
  } else {
    Wire::Config c;
    c.slowWrites = r.chance(50);
    c.maxRead = r.chance(50) ? 1 + r.below(300) : 0;
    c.seed = r.next();
    l.ab = std::make_shared<Wire>(c);
    c.seed = r.next();
    l.ba = std::make_shared<Wire>(c);
    l.aOut = l.ab;
    l.bIn = l.ab;
    l.bOut = l.ba;
    l.aIn = l.ba;
  }
  return l;
}

// Collects protocol errors reported by a session.
struct Errors {
  std::mutex m;
  std::vector<std::string> v;
  void add(const char* s) {
    std::unique_lock<std::mutex> l(m);
    v.push_back(s);
  }
  size_t size() {
    std::unique_lock<std::mutex> l(m);
    return v.size();
  }
  std::string last() {
    std::unique_lock<std::mutex> l(m);
    return v.empty() ? "" : v.back();
  }
};

// --------------------------------------------------------------------------
// A request in flight, whatever its type.
// --------------------------------------------------------------------------
struct Pending {
  char kind = 0;
  int64_t tag = 0;
  std::function<bool()> ready;          // has the result completed?
  std::function<void()> await;          // blocks until it has
  std::function<std::string()> check;   // empty if it is the right answer for this request
  std::function<std::string()> result;  // "E:<message>" or "R:<tag>"
  std::function<int()> completions;     // how often it completed, -1 if not observable
};

template <typename Q>
Pending sendOne(dap::Session* s, char kind, int64_t tag, bool generic, uint64_t how = 0) {
  using P = typename Q::Response;
  Q q;
  fill(q, tag, REQ);
  Pending p;
  p.kind = kind;
  p.tag = tag;
  if (generic) {
    struct Slot {
      std::mutex m;
      std::condition_variable cv;
      int n = 0;
      dap::ResponseOrError<P> v;
    };
    auto slot = std::make_shared<Slot>();
    bool ok = s->send(dap::TypeOf<Q>::type(), dap::TypeOf<P>::type(), &q, [slot](const void* resp, const dap::Error* err) {
      std::unique_lock<std::mutex> l(slot->m);
      slot->n++;
      if (err) {
        slot->v = dap::ResponseOrError<P>(*err);
      } else {
        slot->v = dap::ResponseOrError<P>(*reinterpret_cast<const P*>(resp));
      }
      slot->cv.notify_all();
    });
    if (!ok) {
      std::unique_lock<std::mutex> l(slot->m);
      slot->n++;
      slot->v = dap::ResponseOrError<P>(dap::Error(std::string("Failed to send request")));
    }
    p.ready = [slot] {
      std::unique_lock<std::mutex> l(slot->m);
      return slot->n > 0;
    };
    p.await = [slot] {
      std::unique_lock<std::mutex> l(slot->m);
      slot->cv.wait(l, [&] { return slot->n > 0; });
    };
    p.check = [slot, kind, tag] {
      std::unique_lock<std::mutex> l(slot->m);
      return verifyAnswer(kind, tag, slot->v);
    };
    p.result = [slot] {
      std::unique_lock<std::mutex> l(slot->m);
      return slot->v.error ? "E:" + slot->v.error.message : "R:" + std::to_string(int64_t(slot->v.response.tag));
    };
    p.completions = [slot] {
      std::unique_lock<std::mutex> l(slot->m);
      return slot->n;
    };
    return p;
  }
  auto f = std::make_shared<dap::future<dap::ResponseOrError<P>>>(s->send(q));
  p.ready = [f] { return f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready; };
  p.await = [f, how] {
    mon::Polling polling;
    switch (how % 4) {
      case 0:
        f->wait();
        break;
      case 1:
        f->get();
        break;
      case 2:
        while (f->wait_for(std::chrono::milliseconds(50)) != dap::future_status::ready) {
        }
        break;
      default:
        while (f->wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(50)) != dap::future_status::ready) {
        }
    }
  };
  p.check = [f, kind, tag] { return verifyAnswer(kind, tag, f->get()); };
  p.result = [f] {
    auto v = f->get();
    return v.error ? "E:" + v.error.message : "R:" + std::to_string(int64_t(v.response.tag));
  };
  p.completions = [] { return -1; };
  return p;
}
inline Pending sendKind(dap::Session* s, char kind, int64_t tag, bool generic = false, uint64_t how = 0) {
  switch (kind) {
    case 'A': return sendOne<dap::ReqA>(s, kind, tag, generic, how);
    case 'B': return sendOne<dap::ReqB>(s, kind, tag, generic, how);
    case 'C': return sendOne<dap::ReqC>(s, kind, tag, generic, how);
    case 'D': return sendOne<dap::ReqD>(s, kind, tag, generic, how);
    default: return sendOne<dap::ReqE>(s, kind, tag, generic, how);
  }
}
// The answer the raw peer gives to such a request.
inline mj::Value rawAnswer(char kind, int64_t tag, int64_t seq, int64_t reqSeq) {
  std::string cmd = std::string("req") + kind;
  if (answerFails(kind, tag)) {
    return msgFailure(seq, reqSeq, cmd, tagError(tag));
  }
  return msgResponse(seq, reqSeq, cmd, tree(tag, RESP));
}

}  // namespace sess

#endif
