// C09: no input from the peer can crash, corrupt or wedge a session.
//
// A raw peer sends hostile messages in correct frames, each followed by a canary
// that must be handled; handlers of all kinds are registered and send back what
// they got, and requests are pending that hostile responses aim at. Some sessions
// end with unframed hostile bytes. The sanitizers watch memory and undefined
// behaviour, the watchdog watches for a session that stops.
#include "codec.h"
#include "proto.h"
#include "sess.h"

using mj::Value;

namespace user {
struct CanaryEvent : public dap::Event {
  dap::integer tag;
};
struct EchoResponse : public dap::Response {
  dap::any value;
  dap::optional<dap::variant<dap::string, dap::integer, dap::array<dap::any>>> var;
  dap::optional<dap::string> text;
  dap::optional<dap::object> obj;
};
struct EchoRequest : public dap::Request {
  using Response = EchoResponse;
  dap::any value;
  dap::optional<dap::variant<dap::string, dap::integer, dap::array<dap::any>>> var;
  dap::optional<dap::string> text;
  dap::optional<dap::object> obj;
};
}  // namespace user
namespace dap {
DAP_DECLARE_STRUCT_TYPEINFO(user::CanaryEvent);
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::CanaryEvent, "canary", DAP_FIELD(tag, "tag"));
DAP_DECLARE_STRUCT_TYPEINFO(user::EchoResponse);
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::EchoResponse, "", DAP_FIELD(value, "value"), DAP_FIELD(var, "var"), DAP_FIELD(text, "text"), DAP_FIELD(obj, "obj"));
DAP_DECLARE_STRUCT_TYPEINFO(user::EchoRequest);
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::EchoRequest, "echo", DAP_FIELD(value, "value"), DAP_FIELD(var, "var"), DAP_FIELD(text, "text"), DAP_FIELD(obj, "obj"));
}  // namespace dap

namespace {

proto::Schema schema;

class Sink : public dap::Writer {
 public:
  bool isOpen() override { return open; }
  void close() override { open = false; }
  bool write(const void* p, size_t n) override {
    // Touch every byte: the sanitizers check them.
    h = mon::hash(p, n, h);
    bytes += n;
    return true;
  }
  std::atomic<bool> open{true};
  std::atomic<uint64_t> bytes{0};
  uint64_t h = 1;
};

std::string rep(const std::string& s, size_t n) {
  std::string o;
  o.reserve(s.size() * n);
  for (size_t i = 0; i < n; i++) {
    o += s;
  }
  return o;
}

// A piece of JSON text chosen to hurt.
std::string hostileValue(mon::Rng& r) {
  static const std::vector<std::string> fixed = {
      "1e400", "-1e400", "1E+999999999", "1e-400", "-0", "-0.0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
      "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "0x10", "01", "+1", "1.", ".5", "NaN", "Infinity", "-Infinity", "nul", "tru", "True",
      "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\ud800\"", "\"\\ud83d\\ude00\"", "\"\\u0000\"", "\"a\\u0000b\"", "\"\\u12\"", "\"\\x41\"", "\"\\\"", "\"\x01\x02\"", "\"\n\"",
      "\"\xff\xfe\"", "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xe2\x82\"", "\"\xf0\x9f\"", "\"\x80\"", "{}", "[]", "[[]]", "{\"\":{}}", "{\"a\":1,\"a\":2}",
      "{\"a\":}", "[1,]", "{,}", "[,1]", "/*c*/1", "//\n1", "'a'", "{a:1}", "\"", "[", "{", "]", "}", ",", ":", "", "\xef\xbb\xbf{}", "null", "true", "false", "0", "\"\"",
      "{\"\xff\":1}", "{\"\\u0000\":1}", "[1e308,1e308]", "-", "--1", "1e", "1e+", "\"%s%n%d\""};
  switch (r.below(14)) {
    case 0: {
      static const std::vector<size_t> d = {10, 100, 200, 500, 900, 999, 1000, 1001, 1100, 5000, 20000, 200000};
      size_t n = r.pick(d);
      mon::maximum("nesting", n);
      auto close = r.chance(70);
      switch (r.below(4)) {
        case 0:
          return rep("[", n) + (close ? rep("]", n) : "");
        case 1:
          return rep("{\"a\":", n) + "1" + (close ? rep("}", n) : "");
        case 2:
          return rep("[{\"a\":", n / 2) + "1" + (close ? rep("}]", n / 2) : "");
        default:
          return rep("[1,[],", n) + "2" + (close ? rep("]", n) : "");
      }
    }
    case 1:
      if (r.chance(30)) {
        return "0." + rep("0", r.below(400)) + std::to_string(r.below(1000)) + (r.chance(70) ? "e" + std::to_string(r.range(-400, 700)) : "");
      }
      return std::string(r.chance(50) ? "-" : "") + rep(std::string(1, char('1' + r.below(9))), 1 + r.below(2000)) + (r.chance(30) ? ".5" : "") + (r.chance(30) ? "e" + std::to_string(r.range(-400, 400)) : "");
    case 2: {  // long string of random bytes
      std::string s = "\"";
      size_t n = r.chance(10) ? 200000 : r.below(3000);
      for (size_t i = 0; i < n; i++) {
        char c = char(r.below(256));
        if (c == '"' || c == '\\') {
          c = 'x';
        }
        s += c;
      }
      return s + "\"";
    }
    case 3: {  // many members, duplicates
      std::string s = "{";
      size_t n = r.below(400);
      for (size_t i = 0; i < n; i++) {
        s += (i ? ",\"" : "\"") + std::string(r.chance(50) ? "k" : "k" + std::to_string(r.below(50))) + "\":" + std::to_string(i);
      }
      return s + "}";
    }
    case 4: {
      std::string s = "[";
      size_t n = r.below(2000);
      for (size_t i = 0; i < n; i++) {
        s += (i ? "," : "") + (r.chance(90) ? std::string("0") : r.pick(fixed));
      }
      return s + "]";
    }
    case 5:
      return mj::text(mj::genValue(r, 3), &r);
    case 6: {
      std::string s;
      size_t n = r.below(60);
      for (size_t i = 0; i < n; i++) {
        s += char(r.below(256));
      }
      return s;
    }
    default:
      return r.pick(fixed);
  }
}

void mutate(mon::Rng& r, std::string& s) {
  size_t n = 1 + r.below(4);
  for (size_t i = 0; i < n; i++) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(8)) {
      case 0:
        if (p < s.size()) {
          s[p] = char(r.below(256));
        }
        break;
      case 1:
        if (p < s.size()) {
          s[p] = char(s[p] ^ (1 << r.below(8)));
        }
        break;
      case 2:
        s.insert(p, std::string(1, char(r.below(256))));
        break;
      case 3:
        s.insert(p, hostileValue(r));
        break;
      case 4:
        s.erase(p, 1 + r.below(20));
        break;
      case 5:
        s.insert(p, s.substr(p, 1 + r.below(60)));
        break;
      case 6:
        s.resize(p);
        break;
      default: {
        // Replace a value: what is between a colon and the next comma.
        auto c = s.find(':', p);
        if (c != std::string::npos) {
          auto e = s.find_first_of(",}", c);
          s.replace(c + 1, (e == std::string::npos ? s.size() : e) - c - 1, hostileValue(r));
        }
      }
    }
  }
}

std::string quoted(const std::string& s) { return "\"" + s + "\""; }

std::string hostileMessage(mon::Rng& r, int64_t pending) {
  std::string seq = r.chance(80) ? std::to_string(r.below(1000)) : hostileValue(r);
  auto hv = [&](int percent, const std::string& ok) { return r.chance(percent) ? hostileValue(r) : ok; };
  switch (r.below(8)) {
    case 0:
      return hostileValue(r);
    case 1: {  // hostile values in the echoed fields
      std::string s = "{\"seq\":" + seq + ",\"type\":\"request\",\"command\":\"echo\",\"arguments\":{\"value\":" + hv(70, "1");
      if (r.chance(50)) {
        s += ",\"var\":" + hv(80, "\"x\"");
      }
      if (r.chance(50)) {
        s += ",\"text\":" + hv(80, "\"x\"");
      }
      if (r.chance(50)) {
        s += ",\"obj\":" + hv(80, "{}");
      }
      return s + "}}";
    }
    case 2: {  // hostile responses, at pending requests too
      std::string rs = r.chance(60) ? std::to_string(1 + r.below(uint64_t(pending + 3))) : hostileValue(r);
      std::string s = "{\"seq\":" + seq + ",\"type\":\"response\",\"request_seq\":" + rs + ",\"success\":" + hv(40, r.chance(50) ? "true" : "false") + ",\"command\":" + hv(30, "\"threads\"");
      if (r.chance(60)) {
        s += ",\"message\":" + hv(70, "\"m\"");
      }
      if (r.chance(70)) {
        s += ",\"body\":" + hv(70, "{\"threads\":" + hostileValue(r) + "}");
      }
      return s + "}";
    }
    case 3: {  // hostile envelope
      std::string s = "{\"seq\":" + hv(30, "1") + ",\"type\":" + hv(30, r.chance(50) ? "\"request\"" : "\"event\"") + ",\"command\":" + hv(50, "\"next\"") + ",\"event\":" + hv(50, "\"stopped\"");
      if (r.chance(70)) {
        s += ",\"arguments\":" + hostileValue(r);
      }
      if (r.chance(70)) {
        s += ",\"body\":" + hostileValue(r);
      }
      return s + "}";
    }
    default: {
      auto& q = proto::requests();
      auto& e = proto::events();
      auto k = r.below(q.size() + e.size());
      auto& s = schema.structs.at(k < q.size() ? q[k].type.cpp : e[k - q.size()].type.cpp);
      auto body = schema.gen(r, s, 70, 3);
      auto m = k < q.size() ? sess::msgRequest(int64_t(k), s.name, body) : sess::msgEvent(int64_t(k), s.name, body);
      auto t = mj::text(m, r.chance(30) ? &r : nullptr);
      mutate(r, t);
      return t;
    }
  }
}

std::string hostileBytes(mon::Rng& r) {
  std::string s;
  size_t n = 1 + r.below(12);
  static const std::vector<std::string> parts = {"Content-Length:", "Content-Length: ", "5", "0", "99999999999999999999999", "18446744073709551615", "4294967296", "-1", "\r\n", "\r\n\r\n", "\n\n", "{}", "\r",
                                                 "Content-Length: 3\r\n\r\n{}", "Content-Type: x\r\n", "Content-Lengt", std::string(1, '\0'), "\xff", " ", "\t"};
  for (size_t i = 0; i < n; i++) {
    s += r.chance(80) ? r.pick(parts) : rep(std::string(1, char(r.below(256))), 1 + r.below(5000));
  }
  if (r.chance(40)) {  // the start of a message that is longer than memory
    static const std::vector<std::string> big = {"18446744073709551615", "18446744073709551614", "18446744073709551600", "9223372036854775807", "9223372036854775808", "4611686018427387904",
                                                 "1099511627776", "1000000000000000", "281474976710656", "8589934592", "4294967296", "4294967295"};
    s += "xContent-Length: " + r.pick(big) + "\r\n\r\n" + rep("{", r.below(3000));
  }
  return s;
}

void oneCase(mon::Rng& r) {
  sess::Wire::Config cfg;
  cfg.maxRead = r.chance(30) ? 1 + r.below(4000) : 0;
  cfg.keepLog = false;
  cfg.seed = r.next();
  auto in = std::make_shared<sess::Wire>(cfg);
  auto out = std::make_shared<Sink>();
  struct Seen {
    std::mutex m;
    std::condition_variable cv;
    int64_t last = 0;
    std::atomic<uint64_t> delivered{0}, errors{0};
    std::map<std::string, Value> answers;
  };
  auto seen = std::make_shared<Seen>();
  auto session = dap::Session::create();
  if (r.chance(70)) {
    session->onError([seen](const char* e) { seen->errors += strlen(e) > 0; });
  }
  for (auto& q : proto::requests()) {
    std::string cpp = q.type.cpp;
    seen->answers[cpp] = schema.gen(r, schema.structs.at(q.response.cpp), 30, 2);
    q.handle(session.get(), [seen, cpp](const Value&) {
      seen->delivered++;
      return seen->answers[cpp];
    });
  }
  for (auto& e : proto::events()) {
    e.handle(session.get(), [seen](const Value&) { seen->delivered++; });
  }
  session->registerHandler([seen](const user::EchoRequest& q) {
    seen->delivered++;
    user::EchoResponse a;
    a.value = q.value;
    a.var = q.var;
    a.text = q.text;
    a.obj = q.obj;
    return a;
  });
  session->registerHandler([seen](const user::CanaryEvent& e) {
    std::unique_lock<std::mutex> l(seen->m);
    seen->last = e.tag;
    seen->cv.notify_all();
  });
  session->bind(in, out);
  std::vector<std::function<proto::Answer()>> waits;
  size_t pending = r.below(6);
  for (size_t i = 0; i < pending; i++) {
    auto& q = proto::requests()[r.below(proto::requests().size())];
    waits.push_back(q.send(session.get(), schema.gen(r, schema.structs.at(q.type.cpp), 50, 2)));
  }
  size_t rounds = 25;
  for (size_t k = 1; k <= rounds; k++) {
    auto t = hostileMessage(r, int64_t(pending));
    if (t.empty()) {
      t = " ";
    }
    mon::cover(mon::hash(t));
    mon::desc(std::string(codec::backend()) + " " + mon::show(t, 300));
    mon::count("hostile messages");
    mon::maximum("message bytes", t.size());
    auto canary = Value::object();
    canary.set("tag", Value::integer(int64_t(k)));
    auto ct = mj::text(sess::msgEvent(int64_t(k), "canary", canary));
    in->put("Content-Length: " + std::to_string(t.size()) + "\r\n\r\n" + t + "Content-Length: " + std::to_string(ct.size()) + "\r\n\r\n" + ct);
    std::unique_lock<std::mutex> l(seen->m);
    seen->cv.wait(l, [&] { return seen->last == int64_t(k); });  // else: confirmed hang
    mon::progress();
  }
  mon::count("hostile messages delivered", seen->delivered);
  mon::count("errors reported", seen->errors);
  if (r.chance(1)) {
    mon::sample(mon::st().caseDesc);
  }
  if (r.chance(60)) {
    auto t = hostileBytes(r);
    mon::desc(std::string(codec::backend()) + " bytes " + mon::show(t, 300));
    in->put(t);
    if (r.chance(50)) {
      in->end();
    }
    mon::count("unframed endings");
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c09");
  mon::startWatchdog();
  schema.load(getenv("VERIF_GOLDEN"));
  mon::cases(20, [](uint64_t, mon::Rng& r) { oneCase(r); });
  return mon::finish();
}
