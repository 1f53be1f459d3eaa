// C06: every protocol type round-trips, with the protocol's names.
//
// Values are generated from the recorded schema (golden/protocol.json) as
// independent JSON trees, put member by member into the library's structs, and
// encoded by the library. What comes out is parsed by an independent strict
// parser and must be that very tree. The library then decodes its own text and
// text written independently (shuffled members, blanks, escapes), and what it
// got is read back member by member. Mode "wire" does the same through a session
// against a raw peer that speaks the protocol with the recorded names only.
#include "codec.h"
#include "proto.h"
#include "sess.h"

using mj::Value;

// ---- types declared by a user of the library ----
namespace user {

struct Base {
  dap::integer id;
  dap::optional<dap::string> label;
};
struct Derived : public Base {
  dap::optional<dap::array<dap::array<dap::integer>>> grid;
  dap::array<dap::variant<dap::integer, dap::string, dap::boolean>> mixed;
  dap::optional<dap::variant<dap::string, dap::number>> choice;
  dap::any dyn;
};
struct More : public Derived {
  dap::optional<Base> inner;
  dap::optional<dap::array<Base>> list;
  dap::number ratio;
  dap::optional<dap::object> extra;
};
struct ExtResponse : public dap::Response {
  dap::optional<More> more;
  dap::boolean ok;
};
struct ExtRequest : public dap::Request {
  using Response = ExtResponse;
  More more;
  dap::optional<dap::any> dyn;
};
struct ExtEvent : public dap::Event {
  dap::array<Derived> items;
  dap::optional<dap::null> nothing;
};
struct LaunchExt : public dap::LaunchRequest {
  using Response = dap::LaunchResponse;
  dap::string program;
  dap::optional<dap::array<dap::string>> args;
};

struct Plain {
  virtual ~Plain() = default;
  int64_t local[3] = {1, 2, 3};
};
struct Second : public Plain, public More {
  dap::optional<dap::string> tail;
};

}  // namespace user

namespace dap {
DAP_DECLARE_STRUCT_TYPEINFO(user::Second);
DAP_DECLARE_STRUCT_TYPEINFO(user::Base);
DAP_DECLARE_STRUCT_TYPEINFO(user::Derived);
DAP_DECLARE_STRUCT_TYPEINFO(user::More);
DAP_DECLARE_STRUCT_TYPEINFO(user::ExtResponse);
DAP_DECLARE_STRUCT_TYPEINFO(user::ExtRequest);
DAP_DECLARE_STRUCT_TYPEINFO(user::ExtEvent);
DAP_DECLARE_STRUCT_TYPEINFO(user::LaunchExt);

DAP_IMPLEMENT_STRUCT_TYPEINFO(user::Base, "Base", DAP_FIELD(id, "id"), DAP_FIELD(label, "the label"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(user::Derived, user::Base, "Derived", DAP_FIELD(grid, "grid"), DAP_FIELD(mixed, "mixed"),
                                  DAP_FIELD(choice, "choice"), DAP_FIELD(dyn, "dyn"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(user::More, user::Derived, "More", DAP_FIELD(inner, "inner"), DAP_FIELD(list, "list"),
                                  DAP_FIELD(ratio, "ratio"), DAP_FIELD(extra, "extra"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(user::Second, user::More, "Second", DAP_FIELD(tail, "tail"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::ExtResponse, "", DAP_FIELD(more, "more"), DAP_FIELD(ok, "ok"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::ExtRequest, "user/ext", DAP_FIELD(more, "more"), DAP_FIELD(dyn, "dyn"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(user::ExtEvent, "user event", DAP_FIELD(items, "items"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(user::LaunchExt, dap::LaunchRequest, "launch", DAP_FIELD(program, "program"), DAP_FIELD(args, "args"));
}  // namespace dap

namespace proto {
template <>
struct Visit<user::Base> {
  template <typename F>
  static void go(user::Base& s, F& f) {
    f("id", s.id);
    f("the label", s.label);
  }
};
template <>
struct Visit<user::Derived> {
  template <typename F>
  static void go(user::Derived& s, F& f) {
    Visit<user::Base>::go(s, f);
    f("grid", s.grid);
    f("mixed", s.mixed);
    f("choice", s.choice);
    f("dyn", s.dyn);
  }
};
template <>
struct Visit<user::More> {
  template <typename F>
  static void go(user::More& s, F& f) {
    Visit<user::Derived>::go(s, f);
    f("inner", s.inner);
    f("list", s.list);
    f("ratio", s.ratio);
    f("extra", s.extra);
  }
};
template <>
struct Visit<user::Second> {
  template <typename F>
  static void go(user::Second& s, F& f) {
    Visit<user::More>::go(s, f);
    f("tail", s.tail);
  }
};
template <>
struct Visit<user::ExtResponse> {
  template <typename F>
  static void go(user::ExtResponse& s, F& f) {
    f("more", s.more);
    f("ok", s.ok);
  }
};
template <>
struct Visit<user::ExtRequest> {
  template <typename F>
  static void go(user::ExtRequest& s, F& f) {
    f("more", s.more);
    f("dyn", s.dyn);
  }
};
template <>
struct Visit<user::ExtEvent> {
  template <typename F>
  static void go(user::ExtEvent& s, F& f) {
    f("items", s.items);
  }
};
template <>
struct Visit<user::LaunchExt> {
  template <typename F>
  static void go(user::LaunchExt& s, F& f) {
    f("__restart", s.restart);
    f("noDebug", s.noDebug);
    f("program", s.program);
    f("args", s.args);
  }
};
}  // namespace proto

namespace {

proto::Schema schema;
std::vector<proto::Type> types;
std::vector<proto::Request> requests;
std::vector<proto::Event> events;

void addStruct(const char* cpp, const char* name, const char* kind, const char* response,
               const std::vector<std::tuple<const char*, bool, const char*>>& fields) {
  proto::Struct s;
  s.cpp = cpp;
  s.name = name;
  s.kind = kind;
  s.response = response;
  for (auto& f : fields) {
    proto::SField x;
    x.wire = std::get<0>(f);
    x.optional = std::get<1>(f);
    size_t p = 0;
    x.type = proto::Schema::parseType(std::get<2>(f), p);
    s.fields.push_back(x);
  }
  schema.structs[cpp] = s;
}

void setup() {
  schema.load(getenv("VERIF_GOLDEN"));
  std::vector<std::tuple<const char*, bool, const char*>> base = {std::make_tuple("id", false, "integer"), std::make_tuple("the label", true, "string")};
  addStruct("user::Base", "Base", "type", "", base);
  auto derived = base;
  derived.push_back(std::make_tuple("grid", true, "array<array<integer>>"));
  derived.push_back(std::make_tuple("mixed", false, "array<variant<integer,string,boolean>>"));
  derived.push_back(std::make_tuple("choice", true, "variant<string,number>"));
  derived.push_back(std::make_tuple("dyn", false, "any"));
  addStruct("user::Derived", "Derived", "type", "", derived);
  auto more = derived;
  more.push_back(std::make_tuple("inner", true, "user::Base"));
  more.push_back(std::make_tuple("list", true, "array<user::Base>"));
  more.push_back(std::make_tuple("ratio", false, "number"));
  more.push_back(std::make_tuple("extra", true, "object"));
  addStruct("user::More", "More", "type", "", more);
  auto second = more;
  second.push_back(std::make_tuple("tail", true, "string"));
  addStruct("user::Second", "Second", "type", "", second);
  addStruct("user::ExtResponse", "", "response", "", {std::make_tuple("more", true, "user::More"), std::make_tuple("ok", false, "boolean")});
  addStruct("user::ExtRequest", "user/ext", "request", "user::ExtResponse", {std::make_tuple("more", false, "user::More"), std::make_tuple("dyn", true, "any")});
  addStruct("user::ExtEvent", "user event", "event", "", {std::make_tuple("items", false, "array<user::Derived>")});
  addStruct("user::LaunchExt", "launch", "request", "LaunchResponse",
            {std::make_tuple("__restart", true, "variant<array<any>,boolean,integer,null,number,object,string>"), std::make_tuple("noDebug", true, "boolean"),
             std::make_tuple("program", false, "string"), std::make_tuple("args", true, "array<string>")});
  types = proto::types();
  requests = proto::requests();
  events = proto::events();
  types.push_back(proto::makeType<user::Base>("user::Base"));
  types.push_back(proto::makeType<user::Derived>("user::Derived"));
  types.push_back(proto::makeType<user::More>("user::More"));
  types.push_back(proto::makeType<user::Second>("user::Second"));
  types.push_back(proto::makeType<user::ExtResponse>("user::ExtResponse"));
  types.push_back(proto::makeType<user::ExtRequest>("user::ExtRequest"));
  types.push_back(proto::makeType<user::ExtEvent>("user::ExtEvent"));
  types.push_back(proto::makeType<user::LaunchExt>("user::LaunchExt"));
  requests.push_back(proto::makeRequest<user::ExtRequest>("user::ExtRequest", "user::ExtResponse"));
  events.push_back(proto::makeEvent<user::ExtEvent>("user::ExtEvent"));
}

void same(const Value& want, const Value& got, const std::string& what) {
  std::string where;
  if (!mj::equal(want, got, &where)) {
    mon::violation(what + " at " + where + "; expected " + mon::show(mj::text(want), 700) + " got " + mon::show(mj::text(got), 700));
  }
}

Value genStruct(mon::Rng& r, const proto::Struct& s, uint64_t round) {
  static const int opts[] = {100, 0, 50, 15, 85};
  if (round % 3 == 1 && !s.fields.empty()) {
    // All required fields and a single optional one.
    auto v = schema.gen(r, s, 0, 3);
    auto& f = s.fields[(round / 3) % s.fields.size()];
    v.set(f.wire, schema.gen(r, f.type, 60, 3));
    return v;
  }
  return schema.gen(r, s, opts[r.below(5)], 3);
}

void oneType(mon::Rng& r, const proto::Type& t, uint64_t round) {
  auto& s = schema.structs.at(t.cpp);
  auto want = genStruct(r, s, round);
  std::string what = std::string(t.cpp) + " (" + codec::backend() + ")";
  mon::cover(mon::hash(mj::text(want), mon::hash(std::string(t.cpp))));
  auto x = t.make();
  t.assign(x.get(), want);
  std::string text;
  CHECK(codec::encode(t.info(), x.get(), &text), "%s: encoding failed for %s", what.c_str(), mon::show(mj::text(want), 500).c_str());
  Value got;
  std::string err;
  CHECK(mj::parse(text, &got, &err), "%s: the encoded form is not JSON (%s): %s", what.c_str(), err.c_str(), mon::show(text, 500).c_str());
  same(want, got, what + ": the encoded form differs from the value");
  same(want, t.toValue(x.get()), what + ": encoding changed the value");
  auto y = t.make();
  CHECK(codec::decode(t.info(), y.get(), text), "%s: its own encoding cannot be decoded: %s", what.c_str(), mon::show(text, 700).c_str());
  same(want, t.toValue(y.get()), what + ": decoding the encoded form gave another value");
  std::string other = mj::text(want, &r);
  auto z = t.make();
  CHECK(codec::decode(t.info(), z.get(), other), "%s: an equivalent encoding cannot be decoded: %s", what.c_str(), mon::show(other, 700).c_str());
  same(want, t.toValue(z.get()), what + ": decoding an equivalent encoding gave another value: " + mon::show(other, 500));
  // A copy made through the type description is equal and encodes equally.
  auto info = t.info();
  auto size = info->size();
  CHECK(size > 0 && info->alignment() > 0, "%s: no size or alignment", what.c_str());
  if (r.chance(25)) {
    void* mem = nullptr;
    if (posix_memalign(&mem, std::max(sizeof(void*), info->alignment()), size) != 0) {
      mon::inconclusive("no memory");
    }
    info->copyConstruct(mem, x.get());
    same(want, t.toValue(mem), what + ": the copy differs");
    info->destruct(mem);
    free(mem);
    mon::count("copies through the type description");
  }
  mon::count("types round-tripped");
  mon::count("fields set", want.o.size());
  if (round == 0) {
    CHECK(s.kind == "response" || s.kind == "type" || info->name() == s.name, "%s: named '%s', the protocol says '%s'", what.c_str(), info->name().c_str(), s.name.c_str());
  }
  if (r.chance(1)) {
    mon::sample(std::string(t.cpp) + " " + text);
  }
}

// ---- through a session, against a raw peer ----
bool sameArgs(const Value* got, const Value& want, std::string* where) {
  if (!got) {
    // A message without any field may leave out its arguments or body.
    if (want.o.empty()) {
      return true;
    }
    *where = "missing";
    return false;
  }
  return mj::equal(want, *got, where);
}

void exactKeys(const Value& m, const std::set<std::string>& allowed, const std::string& what) {
  for (auto& p : m.o) {
    CHECK(allowed.count(p.first), "%s: the message has the field '%s', which is not of the protocol: %s", what.c_str(), p.first.c_str(), mon::show(mj::text(m), 400).c_str());
  }
}

void wireCase(mon::Rng& r) {
  sess::Wire::Config cfg;
  cfg.maxRead = r.chance(30) ? 1 + r.below(400) : 0;
  cfg.seed = r.next();
  auto in = std::make_shared<sess::Wire>(cfg), out = std::make_shared<sess::Wire>(cfg);
  auto errors = std::make_shared<sess::Errors>();
  sess::RawReader peer(out);
  struct Seen {
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::pair<std::string, Value>> v;
    Value answer;
    size_t sent = 0;
  };
  auto seen = std::make_shared<Seen>();
  auto session = dap::Session::create();
  session->onError([errors](const char* e) { errors->add(e); });
  for (auto& q : requests) {
    std::string cpp = q.type.cpp;
    q.handle(session.get(), [seen, cpp](const Value& v) {
      std::unique_lock<std::mutex> l(seen->m);
      seen->v.emplace_back(cpp, v);
      seen->cv.notify_all();
      return seen->answer;
    });
  }
  for (auto& e : events) {
    std::string cpp = e.type.cpp;
    e.handle(session.get(), [seen, cpp](const Value& v) {
      std::unique_lock<std::mutex> l(seen->m);
      seen->v.emplace_back(cpp, v);
      seen->cv.notify_all();
    });
  }
  session->bind(in, out);
  int64_t seq = 1;
  std::vector<size_t> order;
  for (size_t i = 0; i < requests.size() + events.size(); i++) {
    order.push_back(i);
  }
  r.shuffle(order);
  order.resize(20);
  auto frame = [&](const Value& m) {
    auto t = mj::text(m, &r);
    in->put("Content-Length: " + std::to_string(t.size()) + "\r\n\r\n" + t);
  };
  auto awaitSeen = [&](const std::string& cpp, const Value& want) {
    std::unique_lock<std::mutex> l(seen->m);
    // Under the watchdog: a message that silently never arrives is a confirmed hang.
    while (seen->v.empty() && errors->size() == 0) {
      mon::Polling p;
      seen->cv.wait_for(l, std::chrono::milliseconds(20));
    }
    if (seen->v.empty()) {
      mon::violation(cpp + ": a valid message did not reach its handler; error reported: " + errors->last() + "; message " + mon::show(mj::text(want), 500));
    }
    CHECK(seen->v.size() == 1 && seen->v[0].first == cpp, "%s: %zu handlers ran, first of %s", cpp.c_str(), seen->v.size(), seen->v[0].first.c_str());
    same(want, seen->v[0].second, cpp + ": the handler got another value");
    seen->v.clear();
  };
  for (auto k : order) {
    mon::progress();
    std::string where;
    if (k >= requests.size()) {
      auto& e = events[k - requests.size()];
      auto& s = schema.structs.at(e.type.cpp);
      std::string what = e.type.cpp;
      auto v = genStruct(r, s, r.below(300));
      e.send(session.get(), v);
      Value m;
      CHECK(peer.next(&m), "%s: nothing written", what.c_str());
      CHECK(sess::strField(m, "type") == "event" && sess::strField(m, "event") == s.name, "%s: wrong message %s", what.c_str(), mon::show(mj::text(m), 300).c_str());
      exactKeys(m, {"seq", "type", "event", "body"}, what);
      CHECK(sameArgs(m.find("body"), v, &where), "%s: the body differs at %s: %s", what.c_str(), where.c_str(), mon::show(mj::text(m), 600).c_str());
      v = genStruct(r, s, r.below(300));
      frame(sess::msgEvent(seq++, s.name, v));
      awaitSeen(what, v);
      mon::count("events sent and received");
      mon::cover(mon::hash(mj::text(v), mon::hash(what)));
      continue;
    }
    auto& q = requests[k];
    auto& s = schema.structs.at(q.type.cpp);
    auto& rs = schema.structs.at(q.response.cpp);
    std::string what = q.type.cpp;
    // The session asks.
    auto v = genStruct(r, s, r.below(300));
    auto wait = q.send(session.get(), v);
    Value m;
    CHECK(peer.next(&m), "%s: nothing written", what.c_str());
    CHECK(sess::strField(m, "type") == "request" && sess::strField(m, "command") == s.name, "%s: wrong message %s", what.c_str(), mon::show(mj::text(m), 300).c_str());
    exactKeys(m, {"seq", "type", "command", "arguments"}, what);
    CHECK(sameArgs(m.find("arguments"), v, &where), "%s: the arguments differ at %s: %s", what.c_str(), where.c_str(), mon::show(mj::text(m), 600).c_str());
    auto a = genStruct(r, rs, r.below(300));
    frame(sess::msgResponse(seq++, sess::intField(m, "seq"), s.name, a));
    auto got = wait();
    CHECK(!got.failed, "%s: a valid response completed with the error '%s': %s", what.c_str(), got.error.c_str(), mon::show(mj::text(a), 500).c_str());
    same(a, got.response, std::string(q.response.cpp) + ": the response arrived with another value");
    // The peer asks.
    v = genStruct(r, s, r.below(300));
    a = genStruct(r, rs, r.below(300));
    {
      std::unique_lock<std::mutex> l(seen->m);
      seen->answer = a;
    }
    int64_t my = seq++;
    frame(sess::msgRequest(my, s.name, v));
    awaitSeen(what, v);
    Value resp;
    CHECK(peer.next(&resp), "%s: no response written", what.c_str());
    CHECK(sess::strField(resp, "type") == "response" && sess::strField(resp, "command") == s.name && sess::intField(resp, "request_seq") == my &&
              resp.find("success") && resp.find("success")->kind == mj::Bool && resp.find("success")->b,
          "%s: wrong response %s", what.c_str(), mon::show(mj::text(resp), 400).c_str());
    exactKeys(resp, {"seq", "type", "request_seq", "success", "command", "message", "body"}, what);
    CHECK(sameArgs(resp.find("body"), a, &where), "%s: the response's body differs at %s: %s", what.c_str(), where.c_str(), mon::show(mj::text(resp), 600).c_str());
    mon::count("requests sent and received");
    mon::cover(mon::hash(mj::text(v), mon::hash(mj::text(a))));
  }
  CHECK(errors->size() == 0, "an error was reported for valid messages: %s", errors->last().c_str());
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c06");
  mon::startWatchdog();
  setup();
  if (mon::opt().mode == "wire") {
    mon::cases(20, [](uint64_t, mon::Rng& r) { wireCase(r); });
  } else {
    mon::cases(50, [](uint64_t i, mon::Rng& r) {
      for (auto& t : types) {
        mon::desc(t.cpp);
        oneType(r, t, i);
      }
    });
  }
  return mon::finish();
}
