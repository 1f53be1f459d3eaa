// Conversion between the library's protocol structs and independent JSON values,
// member by member, with the names of golden/protocol.json. The per-struct visits
// are generated by lib/gen.py; nothing here uses the library's (de)serialization.
#ifndef VERIF_PROTO_H
#define VERIF_PROTO_H

#include "dap/protocol.h"
#include "dap/session.h"

#include "minijson.h"
#include "mon.h"

namespace proto {

using mj::Value;

template <typename S>
struct Visit;  // generated: static void go(S&, F&) calls f("wire", member)

// Conv<T>::assign gives a T the value; Conv<T>::toValue reads it back. The primary
// template is for the structs of the protocol.
struct Assigner;
struct Collector;
template <typename T>
struct Conv {
  static void assign(T& s, const Value& v);
  static Value toValue(const T& s);
};
template <typename T>
void assign(T& x, const Value& v) {
  Conv<T>::assign(x, v);
}
template <typename T>
Value toValue(const T& x) {
  return Conv<T>::toValue(x);
}

template <>
struct Conv<dap::boolean> {
  static const mj::Kind k = mj::Bool;
  static void assign(dap::boolean& x, const Value& v) { x = v.b; }
  static Value toValue(const dap::boolean& x) { return Value::boolean(x); }
};
template <>
struct Conv<dap::integer> {
  static const mj::Kind k = mj::Int;
  static void assign(dap::integer& x, const Value& v) { x = v.i; }
  static Value toValue(const dap::integer& x) { return Value::integer(x); }
};
template <>
struct Conv<dap::number> {
  static const mj::Kind k = mj::Double;
  static void assign(dap::number& x, const Value& v) { x = v.kind == mj::Int ? double(v.i) : v.d; }
  static Value toValue(const dap::number& x) { return Value::number(x); }
};
template <>
struct Conv<dap::string> {
  static const mj::Kind k = mj::String;
  static void assign(dap::string& x, const Value& v) { x = v.s; }
  static Value toValue(const dap::string& x) { return Value::string(x); }
};
template <>
struct Conv<dap::any> {
  static void assign(dap::any& x, const Value& v);
  static Value toValue(const dap::any& x);
};
template <>
struct Conv<dap::object> {
  static const mj::Kind k = mj::Object;
  static void assign(dap::object& x, const Value& v) {
    x.clear();
    for (auto& p : v.o) {
      dap::any a;
      Conv<dap::any>::assign(a, p.second);
      x[p.first] = a;
    }
  }
  static Value toValue(const dap::object& x) {
    auto v = Value::object();
    for (auto& p : x) {
      v.set(p.first, Conv<dap::any>::toValue(p.second));
    }
    return v;
  }
};
template <typename T>
struct Conv<dap::array<T>> {
  static const mj::Kind k = mj::Array;
  static void assign(dap::array<T>& x, const Value& v) {
    x.clear();
    for (auto& e : v.a) {
      T t;
      Conv<T>::assign(t, e);
      x.push_back(t);
    }
  }
  static Value toValue(const dap::array<T>& x) {
    auto v = Value::array();
    for (auto& e : x) {
      v.a.push_back(Conv<T>::toValue(e));
    }
    return v;
  }
};
inline void Conv<dap::any>::assign(dap::any& x, const Value& v) {
  switch (v.kind) {
    case mj::Null:
      x = dap::null();
      break;
    case mj::Bool:
      x = dap::boolean(v.b);
      break;
    case mj::Int:
      x = dap::integer(v.i);
      break;
    case mj::Double:
      x = dap::number(v.d);
      break;
    case mj::String:
      x = v.s;
      break;
    case mj::Array: {
      dap::array<dap::any> a;
      proto::assign(a, v);
      x = a;
      break;
    }
    case mj::Object: {
      dap::object o;
      proto::assign(o, v);
      x = o;
      break;
    }
  }
}
inline Value Conv<dap::any>::toValue(const dap::any& x) {
  if (x.is<dap::boolean>()) {
    return proto::toValue(x.get<dap::boolean>());
  }
  if (x.is<dap::integer>()) {
    return proto::toValue(x.get<dap::integer>());
  }
  if (x.is<dap::number>()) {
    return proto::toValue(x.get<dap::number>());
  }
  if (x.is<dap::string>()) {
    return proto::toValue(x.get<dap::string>());
  }
  if (x.is<dap::object>()) {
    return proto::toValue(x.get<dap::object>());
  }
  if (x.is<dap::array<dap::any>>()) {
    return proto::toValue(x.get<dap::array<dap::any>>());
  }
  if (x.is<dap::null>()) {
    return Value();
  }
  return Value::string("<a dynamic value of another type>");
}
// Alternatives of a variant are told apart by the kind of the value.
template <typename V, typename T>
struct Alt {
  static bool assign(V& x, const Value& v) {
    if (v.kind != Conv<T>::k) {
      return false;
    }
    T t;
    Conv<T>::assign(t, v);
    x = t;
    return true;
  }
  static bool toValue(const V& x, Value* out) {
    if (!x.template is<T>()) {
      return false;
    }
    *out = Conv<T>::toValue(x.template get<T>());
    return true;
  }
};
template <typename V>
struct Alt<V, dap::null> {
  static bool assign(V& x, const Value& v) {
    if (v.kind != mj::Null) {
      return false;
    }
    x = dap::null();
    return true;
  }
  static bool toValue(const V& x, Value* out) {
    if (!x.template is<dap::null>()) {
      return false;
    }
    *out = Value();
    return true;
  }
};
template <typename... Ts>
struct Conv<dap::variant<Ts...>> {
  using V = dap::variant<Ts...>;
  static void assign(V& x, const Value& v) {
    bool ok = false;
    int u[] = {(ok = ok || Alt<V, Ts>::assign(x, v), 0)...};
    (void)u;
    if (!ok) {
      mon::inconclusive("a generated value fits no alternative");
    }
  }
  static Value toValue(const V& x) {
    Value v = Value::string("<a variant that holds none of its types>");
    bool ok = false;
    int u[] = {(ok = ok || Alt<V, Ts>::toValue(x, &v), 0)...};
    (void)u;
    return v;
  }
};
struct Assigner {
  const Value* v;
  template <typename T>
  void operator()(const char* wire, dap::optional<T>& m) {
    auto f = v->find(wire);
    if (!f) {
      m = dap::optional<T>();
      return;
    }
    T t;
    Conv<T>::assign(t, *f);
    m = t;
  }
  template <typename T>
  void operator()(const char* wire, T& m) {
    if (auto f = v->find(wire)) {
      Conv<T>::assign(m, *f);
    }
  }
};
struct Collector {
  Value v = Value::object();
  template <typename T>
  void operator()(const char* wire, dap::optional<T>& m) {
    if (m.has_value()) {
      v.set(wire, Conv<T>::toValue(m.value()));
    }
  }
  template <typename T>
  void operator()(const char* wire, T& m) {
    v.set(wire, Conv<T>::toValue(m));
  }
};
template <typename T>
void Conv<T>::assign(T& s, const Value& v) {
  Assigner a{&v};
  Visit<T>::go(s, a);
}
template <typename T>
Value Conv<T>::toValue(const T& s) {
  Collector c;
  Visit<T>::go(const_cast<T&>(s), c);
  return c.v;
}

// ---- operations on a struct type, type-erased ----
struct Type {
  const char* cpp;
  const dap::TypeInfo* (*info)();
  std::shared_ptr<void> (*make)();
  void (*assign)(void*, const Value&);
  Value (*toValue)(const void*);
};
// The result of a request: the response, or an error.
struct Answer {
  bool failed = false;
  std::string error;
  Value response;
};
struct Request {
  Type type, response;
  // Sends the request; the function waits for the answer.
  std::function<Answer()> (*send)(dap::Session*, const Value&);
  // The handler gets the request as a value, and answers with one.
  void (*handle)(dap::Session*, const std::function<Value(const Value&)>&);
};
struct Event {
  Type type;
  void (*send)(dap::Session*, const Value&);
  void (*handle)(dap::Session*, const std::function<void(const Value&)>&);
};

template <typename S>
Type makeType(const char* cpp) {
  Type t;
  t.cpp = cpp;
  t.info = [] { return dap::TypeOf<S>::type(); };
  t.make = [] { return std::shared_ptr<void>(std::make_shared<S>()); };
  t.assign = [](void* p, const Value& v) { Conv<S>::assign(*static_cast<S*>(p), v); };
  t.toValue = [](const void* p) { return Conv<S>::toValue(*static_cast<const S*>(p)); };
  return t;
}
template <typename S>
Request makeRequest(const char* cpp, const char* resp) {
  Request q;
  using Resp = typename S::Response;
  q.type = makeType<S>(cpp);
  q.response = makeType<Resp>(resp);
  q.send = [](dap::Session* s, const Value& v) -> std::function<Answer()> {
    S r;
    assign(r, v);
    auto f = std::make_shared<dap::future<dap::ResponseOrError<Resp>>>(s->send(r));
    return [f] {
      auto x = f->get();
      Answer a;
      a.failed = bool(x.error);
      if (x.error) {
        a.error = x.error.message;
      } else {
        a.response = toValue(x.response);
      }
      return a;
    };
  };
  q.handle = [](dap::Session* s, const std::function<Value(const Value&)>& f) {
    s->registerHandler([f](const S& r) {
      Resp out;
      assign(out, f(toValue(r)));
      return out;
    });
  };
  return q;
}
template <typename S>
Event makeEvent(const char* cpp) {
  Event e;
  e.type = makeType<S>(cpp);
  e.send = [](dap::Session* s, const Value& v) {
    S x;
    assign(x, v);
    s->send(x);
  };
  e.handle = [](dap::Session* s, const std::function<void(const Value&)>& f) {
    s->registerHandler([f](const S& x) { f(toValue(x)); });
  };
  return e;
}

// Filled by the generated files.
const std::vector<Type>& types();        // every struct
const std::vector<Request>& requests();
const std::vector<Event>& events();

const double BIG = 12345678901234567168.0;
inline std::string writeBig(std::string text) {
  static const std::string from = mj::num(BIG), to = "12345678901234567168";
  for (size_t p = 0; (p = text.find(from, p)) != std::string::npos; p += to.size()) {
    text.replace(p, from.size(), to);
  }
  return text;
}

// ---- the schema, from golden/protocol.json ----
struct TypeExpr {
  std::string name;  // boolean, integer, number, string, null, any, object, array, variant, or a struct
  std::vector<TypeExpr> args;
};
struct SField {
  std::string wire;
  bool optional;
  TypeExpr type;
};
struct Struct {
  std::string cpp, name, kind, response;
  std::vector<SField> fields;
  bool anyRequired = false;
};
class Schema {
 public:
  std::map<std::string, Struct> structs;
  mutable bool ambiguous = false;  // set by decode()

  static TypeExpr parseType(const std::string& s, size_t& p) {
    TypeExpr t;
    while (p < s.size() && s[p] != '<' && s[p] != '>' && s[p] != ',') {
      t.name += s[p++];
    }
    if (p < s.size() && s[p] == '<') {
      do {
        p++;
        t.args.push_back(parseType(s, p));
      } while (p < s.size() && s[p] == ',');
      p++;
    }
    return t;
  }
  void load(const char* path) {
    FILE* f = path ? fopen(path, "r") : nullptr;
    if (!f) {
      mon::inconclusive("the schema cannot be read");
    }
    std::string text;
    char b[65536];
    while (size_t n = fread(b, 1, sizeof b, f)) {
      text.append(b, n);
    }
    fclose(f);
    Value v;
    std::string err;
    if (!mj::parse(text, &v, &err)) {
      mon::inconclusive("the schema cannot be parsed: " + err);
    }
    for (auto& p : v.o) {
      Struct s;
      s.cpp = p.first;
      s.name = p.second.find("name")->s;
      s.kind = p.second.find("kind")->s;
      if (auto r = p.second.find("response")) {
        s.response = r->s;
      }
      for (auto& fv : p.second.find("fields")->a) {
        SField fl;
        fl.wire = fv.find("wire")->s;
        fl.optional = fv.find("optional")->b;
        size_t pos = 0;
        fl.type = parseType(fv.find("type")->s, pos);
        s.anyRequired = s.anyRequired || !fl.optional;
        s.fields.push_back(fl);
      }
      structs[s.cpp] = s;
    }
  }

  // A random value of the type. opt: percentage of optional fields present.
  Value gen(mon::Rng& r, const TypeExpr& t, int opt, int depth) const {
    if (t.name == "boolean") {
      return Value::boolean(r.chance(50));
    }
    if (t.name == "integer") {
      return Value::integer(mj::genInt(r));
    }
    if (t.name == "number") {
      return Value::number(mj::genDouble(r));
    }
    if (t.name == "string") {
      return Value::string(mj::genString(r));
    }
    if (t.name == "null") {
      return Value();
    }
    if (t.name == "any") {
      return mj::genValue(r, std::min(depth, 2));
    }
    if (t.name == "object") {
      auto v = Value::object();
      size_t n = r.below(4);
      for (size_t i = 0; i < n; i++) {
        v.set(mj::genKey(r), mj::genValue(r, std::min(depth, 2)));
      }
      return v;
    }
    if (t.name == "array") {
      auto v = Value::array();
      size_t n = depth <= 0 ? 0 : r.below(r.chance(5) ? 40 : 4);
      for (size_t i = 0; i < n; i++) {
        v.a.push_back(gen(r, t.args[0], opt, depth - 1));
      }
      return v;
    }
    if (t.name == "variant") {
      return gen(r, t.args[r.below(t.args.size())], opt, depth - 1);
    }
    return gen(r, structs.at(t.name), opt, depth - 1);
  }
  Value gen(mon::Rng& r, const Struct& s, int opt, int depth) const {
    auto v = Value::object();
    for (auto& f : s.fields) {
      if (f.optional && (depth < 0 || !r.chance(opt))) {
        continue;
      }
      v.set(f.wire, gen(r, f.type, opt, depth));
    }
    return v;
  }

  // Numbers that are written as integers beyond 64 bits; what type they have as a
  // dynamic value is up to the JSON library.
  static bool hasBig(const Value& v) {
    if (v.kind == mj::Double && std::fabs(v.d) == BIG) {
      return true;
    }
    for (auto& e : v.a) {
      if (hasBig(e)) {
        return true;
      }
    }
    for (auto& p : v.o) {
      if (hasBig(p.second)) {
        return true;
      }
    }
    return false;
  }

  // The reference decoder. Returns false if v is not well-formed for the type;
  // otherwise *out is what arrives: ill-typed optional fields and unknown fields
  // are gone.
  bool decode(const Value& v, const TypeExpr& t, Value* out) const {
    if (t.name == "boolean") {
      *out = v;
      return v.kind == mj::Bool;
    }
    if (t.name == "integer") {
      *out = v;
      if (v.kind == mj::Double && v.d == std::floor(v.d) && std::fabs(v.d) < 9.2e18) {
        ambiguous = true;  // 1.0: whether this is an integer is up to the JSON library
      }
      return v.kind == mj::Int;
    }
    if (t.name == "number") {
      *out = v.kind == mj::Int ? Value::number(double(v.i)) : v;
      return v.kind == mj::Double || v.kind == mj::Int;
    }
    if (t.name == "string") {
      *out = v;
      return v.kind == mj::String;
    }
    if (t.name == "null") {
      *out = v;
      return v.kind == mj::Null;
    }
    if (t.name == "any") {
      ambiguous = ambiguous || hasBig(v);
      *out = v;
      return true;
    }
    if (t.name == "object") {
      ambiguous = ambiguous || hasBig(v);
      *out = v;
      return v.kind == mj::Object;
    }
    if (t.name == "array") {
      if (v.kind != mj::Array) {
        return false;
      }
      *out = Value::array();
      for (auto& e : v.a) {
        Value x;
        if (!decode(e, t.args[0], &x)) {
          return false;
        }
        out->a.push_back(x);
      }
      return true;
    }
    if (t.name == "variant") {
      ambiguous = ambiguous || hasBig(v);
      for (auto& a : t.args) {
        // Alternatives are told apart by the kind of the value.
        if (a.name == "number" ? v.kind == mj::Double : decode(v, a, out)) {
          *out = v;
          return true;
        }
      }
      return false;
    }
    return decode(v, structs.at(t.name), out);
  }
  bool decode(const Value& v, const Struct& s, Value* out) const {
    if (v.kind != mj::Object) {
      ambiguous = ambiguous || s.fields.empty();  // there is no field to be ill-typed
      return false;
    }
    *out = Value::object();
    for (auto& f : s.fields) {
      auto m = v.find(f.wire);
      if (!m) {
        if (!f.optional) {
          return false;
        }
        continue;
      }
      Value x;
      if (decode(*m, f.type, &x)) {
        out->set(f.wire, x);
      } else if (!f.optional) {
        return false;
      }
    }
    return true;
  }
};

}  // namespace proto

#endif
