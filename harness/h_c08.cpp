// C08: ill-typed or incomplete messages never reach a handler.
//
// A raw peer sends requests and events of every kind, generated from the recorded
// schema and then damaged at random places. An independent decoder of the schema
// says whether the message is well-formed and what the handler has to see. After
// every message a canary must arrive, and by then the error callback must have
// been called if, and only if, the message was to be dropped.
#include "codec.h"
#include "proto.h"
#include "sess.h"

using mj::Value;

namespace user {
struct CanaryEvent : public dap::Event {
  dap::integer tag;
};
}  // namespace user
namespace dap {
DAP_DECLARE_STRUCT_TYPEINFO(user::CanaryEvent);
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::CanaryEvent, "canary", DAP_FIELD(tag, "tag"));
}  // namespace dap

namespace {

proto::Schema schema;

// Every node of the tree below v.
void nodes(Value& v, std::vector<Value*>& out) {
  out.push_back(&v);
  for (auto& e : v.a) {
    nodes(e, out);
  }
  for (auto& p : v.o) {
    nodes(p.second, out);
  }
}

Value junk(mon::Rng& r) {
  switch (r.below(11)) {
    case 0:
      return Value();
    case 10:
      return Value::number(r.chance(50) ? proto::BIG : -proto::BIG);
    case 1:
      return Value::array();
    case 2:
      return Value::object();
    case 3:
      return Value::boolean(r.chance(50));
    case 4:
      return Value::integer(mj::genInt(r));
    case 5:
      return Value::number(double(r.range(-1000, 1000)) + 0.5);
    case 6:
      return Value::string(r.chance(50) ? std::to_string(r.range(-9, 9)) : mj::genString(r));
    case 7: {
      auto a = Value::array();
      a.a.push_back(junk(r));
      return a;
    }
    default:
      return mj::genValue(r, 2);
  }
}

// Damages the tree at one place.
void damage(mon::Rng& r, Value& root) {
  std::vector<Value*> all;
  nodes(root, all);
  Value* n = r.pick(all);
  switch (r.below(9)) {
    case 0:
    case 1:
      if (!n->o.empty()) {
        n->o.erase(n->o.begin() + ptrdiff_t(r.below(n->o.size())));
        return;
      }
      break;
    case 2:
      if (!n->o.empty()) {
        // Rename a member.
        auto& k = n->o[r.below(n->o.size())].first;
        std::string old = k;
        static const std::vector<std::string> how = {"upper", "suffix", "prefix", "cut", "nul"};
        auto h = r.pick(how);
        std::string nk = old;
        if (h == "upper" && !nk.empty()) {
          nk[0] = char(toupper(nk[0]));
        } else if (h == "suffix") {
          nk += "s";
        } else if (h == "prefix") {
          nk = "_" + nk;
        } else if (h == "nul") {
          nk += std::string("\0x", 2);
        } else if (!nk.empty()) {
          while ((static_cast<unsigned char>(nk.back()) & 0xc0) == 0x80) {
            nk.pop_back();  // whole characters
          }
          nk.pop_back();
        }
        if (!n->find(nk)) {
          k = nk;
        }
        return;
      }
      break;
    case 3:
      if (n->kind == mj::Object) {
        n->set("unknown" + std::to_string(r.below(9)), junk(r));
        return;
      }
      break;
    case 4:
      if (n->kind == mj::Array) {
        n->a.insert(n->a.begin() + ptrdiff_t(r.below(n->a.size() + 1)), junk(r));
        return;
      }
      break;
    case 5: {
      auto a = Value::array();
      a.a.push_back(*n);
      *n = a;
      return;
    }
    case 6: {
      Value other = *r.pick(all);
      *n = other;
      return;
    }
    default:
      break;
  }
  *n = junk(r);
}

struct Expect {
  bool delivered = false;
  std::string cpp;
  Value value;
};

struct Message {
  std::string text;
  Expect expect;
  std::string desc;
  bool ambiguous = false;
};

struct World {
  std::set<std::string> unhandled;  // names without a handler in this session
};

const proto::Struct& randomStruct(mon::Rng& r, bool* isRequest) {
  auto& q = proto::requests();
  auto& e = proto::events();
  auto k = r.below(q.size() + e.size());
  *isRequest = k < q.size();
  return schema.structs.at(*isRequest ? q[k].type.cpp : e[k - q.size()].type.cpp);
}

// What the session has to do with this message, by the reference decoder.
Expect judge(const Value& m, const World& w, const std::map<std::string, const proto::Struct*>& reqs, const std::map<std::string, const proto::Struct*>& evs) {
  Expect x;
  auto type = m.find("type"), seq = m.find("seq");
  if (!type || type->kind != mj::String || !seq) {
    return x;
  }
  Value ignored;
  proto::TypeExpr integer;
  integer.name = "integer";
  if (!schema.decode(*seq, integer, &ignored)) {
    return x;
  }
  bool request = type->s == "request";
  if (!request && type->s != "event") {
    return x;
  }
  auto name = m.find(request ? "command" : "event");
  if (!name || name->kind != mj::String) {
    return x;
  }
  auto& table = request ? reqs : evs;
  auto it = table.find(name->s);
  if (it == table.end() || w.unhandled.count(it->second->cpp)) {
    return x;
  }
  auto body = m.find(request ? "arguments" : "body");
  static const Value empty = Value::object();
  Value out;
  if (!schema.decode(body ? *body : empty, *it->second, &out)) {
    return x;
  }
  x.delivered = true;
  x.cpp = it->second->cpp;
  x.value = out;
  return x;
}

std::string notJson(mon::Rng& r, const std::string& good) {
  switch (r.below(8)) {
    case 0:
      return good.substr(0, r.below(good.size()));  // cut short
    case 1:
      return "not json";
    case 2:
      return "}" + good;
    case 3: {
      auto t = good;
      t[t.rfind('}')] = ']';
      return t;
    }
    case 4:
      return "\"request\"";
    case 5:
      return "[" + good + "]";
    case 6:
      return r.chance(50) ? "null" : "17";
    default: {
      auto t = good;
      auto p = t.find(':');
      t[p] = ' ';
      return t;
    }
  }
}

// Large in breadth, or full of characters that mean something elsewhere.
Value bulky(mon::Rng& r) {
  switch (r.below(4)) {
    case 0: {
      auto a = Value::array();
      for (uint64_t k = 300 + r.below(1500); k > 0; k--) {
        a.a.push_back(r.chance(50) ? Value::array() : Value::object());
      }
      return a;
    }
    case 1: {
      auto v = Value::integer(1);
      for (uint64_t k = 1 + r.below(60); k > 0; k--) {
        auto a = r.chance(50) ? Value::array() : Value::object();
        if (a.kind == mj::Array) {
          a.a.push_back(v);
        } else {
          a.set("x", v);
        }
        v = a;
      }
      return v;
    }
    default: {
      static const std::vector<std::string> bits = {"[", "{", "\"", "\\", "]", "}", "\\\"", ",", ":", "[[[[", "{\"a\":"};
      std::string t;
      bool one = r.chance(50);
      auto bit = r.pick(bits);
      for (uint64_t k = r.below(2000); k > 0; k--) {
        t += one ? bit : r.pick(bits);
      }
      return Value::string(t);
    }
  }
}

Message make(mon::Rng& r, int64_t seq, const World& w, const std::map<std::string, const proto::Struct*>& reqs, const std::map<std::string, const proto::Struct*>& evs) {
  Message out;
  bool request;
  auto& s = randomStruct(r, &request);
  static const int opts[] = {100, 0, 50, 80};
  auto body = schema.gen(r, s, opts[r.below(4)], 3);
  auto m = request ? sess::msgRequest(seq, s.name, body) : sess::msgEvent(seq, s.name, body);
  int how = int(r.below(20));
  if (r.chance(5)) {
    (r.chance(50) ? m : *m.find(request ? "arguments" : "body")).set("zzExtra", bulky(r));
    mon::count("messages with a bulky extra field");
  }
  if (how < 3) {
    out.desc = "valid";
  } else if (how < 16) {
    size_t n = 1 + r.below(3);
    auto b = m.find(request ? "arguments" : "body");
    for (size_t i = 0; i < n; i++) {
      damage(r, *b);
    }
    out.desc = "damaged content";
  } else if (how < 18) {
    damage(r, m);
    out.desc = "damaged message";
  } else if (how == 18) {
    out.desc = "damaged envelope";
    static const std::vector<std::string> f = {"type", "seq", "command", "event", "arguments", "body"};
    auto k = r.pick(f);
    if (r.chance(50)) {
      m.erase(k);
    } else if (m.find(k)) {
      *m.find(k) = junk(r);
    } else {
      m.set(k, junk(r));
    }
    if (r.chance(20)) {
      m.set("type", Value::string(r.chance(50) ? "Request" : "events"));
    }
  } else {
    out.desc = "not JSON";
    out.text = notJson(r, mj::text(m));
    return out;
  }
  schema.ambiguous = false;
  out.expect = judge(m, w, reqs, evs);
  // A response that nobody waits for is dropped and reported as well (C01).
  out.ambiguous = schema.ambiguous;
  out.text = proto::writeBig(mj::text(m, r.chance(50) ? &r : nullptr));
  out.desc += " " + s.cpp;
  return out;
}

void oneCase(mon::Rng& r) {
  sess::Wire::Config cfg;
  cfg.maxRead = r.chance(20) ? 1 + r.below(400) : 0;
  cfg.seed = r.next();
  auto in = std::make_shared<sess::Wire>(cfg), out = std::make_shared<sess::Wire>(cfg);
  auto errors = std::make_shared<sess::Errors>();
  World w;
  for (auto& q : proto::requests()) {
    if (r.chance(4)) {
      w.unhandled.insert(q.type.cpp);
    }
  }
  for (auto& e : proto::events()) {
    if (r.chance(4)) {
      w.unhandled.insert(e.type.cpp);
    }
  }
  std::map<std::string, const proto::Struct*> reqs, evs;
  for (auto& q : proto::requests()) {
    auto& s = schema.structs.at(q.type.cpp);
    reqs[s.name] = &s;
  }
  for (auto& e : proto::events()) {
    auto& s = schema.structs.at(e.type.cpp);
    evs[s.name] = &s;
  }
  struct Seen {
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::pair<std::string, Value>> v;
    std::map<std::string, Value> answers;
  };
  auto seen = std::make_shared<Seen>();
  auto session = dap::Session::create();
  session->onError([errors](const char* e) { errors->add(e); });
  for (auto& q : proto::requests()) {
    std::string cpp = q.type.cpp;
    if (w.unhandled.count(cpp)) {
      continue;
    }
    seen->answers[cpp] = schema.gen(r, schema.structs.at(q.response.cpp), 30, 2);
    q.handle(session.get(), [seen, cpp](const Value& v) {
      std::unique_lock<std::mutex> l(seen->m);
      seen->v.emplace_back(cpp, v);
      return seen->answers[cpp];
    });
  }
  for (auto& e : proto::events()) {
    std::string cpp = e.type.cpp;
    if (w.unhandled.count(cpp)) {
      continue;
    }
    e.handle(session.get(), [seen, cpp](const Value& v) {
      std::unique_lock<std::mutex> l(seen->m);
      seen->v.emplace_back(cpp, v);
    });
  }
  session->registerHandler([seen](const user::CanaryEvent& e) {
    std::unique_lock<std::mutex> l(seen->m);
    seen->v.emplace_back("canary", Value::integer(e.tag));
    seen->cv.notify_all();
  });
  session->bind(in, out);
  int64_t seq = 1;
  size_t rounds = 60;
  for (size_t k = 0; k < rounds; k++) {
    size_t burst = r.chance(20) ? 2 + r.below(6) : 1;
    std::vector<Message> ms;
    std::string bytes;
    while (ms.size() < burst) {
      auto m = make(r, seq, w, reqs, evs);
      if (m.ambiguous || m.text.empty()) {
        mon::count("skipped as ambiguous");
        continue;
      }
      seq++;
      bytes += "Content-Length: " + std::to_string(m.text.size()) + "\r\n\r\n" + m.text;
      ms.push_back(m);
    }
    auto before = errors->size();
    auto canary = Value::object();
    canary.set("tag", Value::integer(seq));
    auto ct = mj::text(sess::msgEvent(seq, "canary", canary));
    in->put(bytes + "Content-Length: " + std::to_string(ct.size()) + "\r\n\r\n" + ct);
    std::vector<std::pair<std::string, Value>> got;
    {
      std::unique_lock<std::mutex> l(seen->m);
      seen->cv.wait(l, [&] { return !seen->v.empty() && seen->v.back().first == "canary"; });
      got.swap(seen->v);
    }
    mon::progress();
    CHECK(got.back().second.i == seq, "another canary arrived");
    got.pop_back();
    seq++;
    size_t reported = errors->size() - before, dropped = 0, g = 0;
    for (auto& m : ms) {
      mon::cover(mon::hash(m.text));
      auto show = [&] { return std::string(codec::backend()) + ", " + m.desc + ": " + mon::show(m.text, 900); };
      if (!m.expect.delivered) {
        dropped++;
        mon::count("messages to be dropped");
        if (ms.size() == 1) {
          CHECK(got.empty(), "a message that is not well-formed reached the handler of %s as %s; %s", got[0].first.c_str(), mon::show(mj::text(got[0].second), 500).c_str(), show().c_str());
          CHECK(reported > 0, "a message was dropped without an error being reported; %s", show().c_str());
        }
        continue;
      }
      mon::count("messages to be delivered");
      CHECK(g < got.size(), "a well-formed message did not reach its handler (%s); %s", reported ? errors->last().c_str() : "no error reported", show().c_str());
      CHECK(got[g].first == m.expect.cpp, "the handler of %s got a message of %s; %s", got[g].first.c_str(), m.expect.cpp.c_str(), show().c_str());
      std::string where;
      CHECK(mj::equal(m.expect.value, got[g].second, &where), "the handler got another value at %s: %s instead of %s; %s", where.c_str(), mon::show(mj::text(got[g].second), 600).c_str(),
            mon::show(mj::text(m.expect.value), 600).c_str(), show().c_str());
      g++;
    }
    CHECK(g == got.size(), "%zu messages reached handlers that should not have, first %s", got.size() - g, got[g].first.c_str());
    CHECK(reported >= dropped, "%zu of %zu dropped messages were reported", reported, dropped);
    CHECK(dropped || !reported, "an error was reported for well-formed messages: %s", errors->last().c_str());
    if (r.chance(1)) {
      mon::sample(ms[0].desc + (ms[0].expect.delivered ? " -> delivered: " : " -> dropped: ") + ms[0].text);
    }
  }
  if (r.chance(30)) {
    // So deep that it may be refused: delivered or reported, nothing in between.
    size_t depth = size_t(1) << r.range(7, 15);
    auto deep = r.chance(50) ? std::string(depth, '[') + std::string(depth, ']') : [&] {
      std::string t;
      for (size_t k = 0; k < depth; k++) {
        t += "{\"a\":";
      }
      return t + "1" + std::string(depth, '}');
    }();
    auto text = "{\"seq\":" + std::to_string(seq) + ",\"type\":\"event\",\"event\":\"canary\",\"body\":{\"tag\":-1},\"deep\":" + deep + "}";
    auto before = errors->size();
    auto canary = Value::object();
    canary.set("tag", Value::integer(seq));
    auto ct = mj::text(sess::msgEvent(seq, "canary", canary));
    in->put("Content-Length: " + std::to_string(text.size()) + "\r\n\r\n" + text + "Content-Length: " + std::to_string(ct.size()) + "\r\n\r\n" + ct);
    std::unique_lock<std::mutex> l(seen->m);
    seen->cv.wait(l, [&] { return !seen->v.empty() && seen->v.back().second.i == seq; });
    CHECK(seen->v.size() == 2 || errors->size() > before, "a message nested %zu deep was dropped without an error being reported", depth);
    mon::count(seen->v.size() == 2 ? "deep messages delivered" : "deep messages refused");
    mon::progress();
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c08");
  mon::startWatchdog();
  schema.load(getenv("VERIF_GOLDEN"));
  mon::cases(20, [](uint64_t, mon::Rng& r) { oneCase(r); });
  return mon::finish();
}
