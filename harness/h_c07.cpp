// C07: dynamic values round-trip with type and value.
//
// Trees of values are generated independently, turned into the library's dynamic
// values (any, object, array<any>, and arrays of one type held by an any), encoded
// by the library, parsed by an independent strict parser and compared; then the
// library decodes its own text and independently written text of the same tree,
// and the result is read back element by element and compared again.
#include "codec.h"
#include "proto.h"

using mj::Value;

namespace {

void same(const Value& want, const Value& got, const std::string& what) {
  std::string where;
  if (!mj::equal(want, got, &where)) {
    mon::violation(std::string(codec::backend()) + ": " + what + " at " + where + "; expected " + mon::show(mj::text(want), 600) + " got " + mon::show(mj::text(got), 600));
  }
}

// Like proto::assign, but an array whose elements are all of one kind is held as an
// array of that type now and then.
void build(mon::Rng& r, dap::any& x, const Value& v) {
  if (v.kind == mj::Array && !v.a.empty() && r.chance(40)) {
    bool one = true;
    for (auto& e : v.a) {
      one = one && e.kind == v.a[0].kind;
    }
    if (one) {
      mon::count("arrays of one type held by an any");
      switch (v.a[0].kind) {
        case mj::Bool: {
          dap::array<dap::boolean> a;
          proto::assign(a, v);
          x = a;
          return;
        }
        case mj::Int: {
          dap::array<dap::integer> a;
          proto::assign(a, v);
          x = a;
          return;
        }
        case mj::Double: {
          dap::array<dap::number> a;
          proto::assign(a, v);
          x = a;
          return;
        }
        case mj::String: {
          dap::array<dap::string> a;
          proto::assign(a, v);
          x = a;
          return;
        }
        case mj::Object: {
          dap::array<dap::object> a;
          proto::assign(a, v);
          x = a;
          return;
        }
        default:
          break;
      }
    }
  }
  if (v.kind == mj::Array) {
    dap::array<dap::any> a;
    for (auto& e : v.a) {
      dap::any y;
      build(r, y, e);
      a.push_back(y);
    }
    x = a;
  } else if (v.kind == mj::Object) {
    dap::object o;
    for (auto& p : v.o) {
      dap::any y;
      build(r, y, p.second);
      if (r.chance(50)) {
        o[p.first] = y;
      } else {
        o.emplace(p.first, std::move(y));
      }
    }
    x = o;
  } else {
    proto::assign(x, v);
  }
}

Value genTree(mon::Rng& r) {
  switch (r.below(12)) {
    case 0: {  // wide array
      auto v = Value::array();
      size_t n = r.chance(3) ? 8000 : r.below(400);
      int kind = int(r.below(6));
      for (size_t i = 0; i < n; i++) {
        v.a.push_back(kind == 0   ? Value::integer(mj::genInt(r))
                      : kind == 1 ? Value::number(mj::genDouble(r))
                      : kind == 2 ? Value::string(mj::genString(r))
                      : kind == 3 ? Value::boolean(r.chance(50))
                                  : mj::genValue(r, 1));
      }
      return v;
    }
    case 1: {  // wide object
      auto v = Value::object();
      size_t n = r.below(300);
      for (size_t i = 0; i < n; i++) {
        v.set(mj::genKey(r) + (r.chance(50) ? std::to_string(i) : std::string()), mj::genValue(r, 1));
      }
      return v;
    }
    case 2: {  // deep
      auto v = mj::genValue(r, 1);
      size_t n = r.below(150);
      for (size_t i = 0; i < n; i++) {
        auto w = r.chance(50) ? Value::array() : Value::object();
        if (w.kind == mj::Array) {
          if (r.chance(20)) {
            w.a.push_back(mj::genValue(r, 0));
          }
          w.a.push_back(v);
        } else {
          w.set(mj::genKey(r), v);
        }
        v = w;
      }
      mon::maximum("nesting", n);
      return v;
    }
    case 3: {  // long string
      std::string s;
      size_t n = r.chance(20) ? 300000 : r.below(20000);
      int style = int(r.below(3));
      while (s.size() < n) {
        s += style == 0 ? std::string(1, char(32 + r.below(95))) : style == 1 ? mj::genString(r) : std::string("\\\"\n\x01");
      }
      mon::maximum("string bytes", s.size());
      return Value::string(s);
    }
    case 4:
      return Value::integer(mj::genInt(r));
    case 5:
      return Value::number(mj::genDouble(r));
    case 6:
      return Value::string(mj::genString(r));
    default:
      return mj::genValue(r, int(2 + r.below(5)));
  }
}

uint64_t leaves(const Value& v) {
  uint64_t n = 1;
  for (auto& e : v.a) {
    n += leaves(e);
  }
  for (auto& p : v.o) {
    n += leaves(p.second);
  }
  return n;
}

template <typename T>
void roundTrip(mon::Rng& r, const T& x, const Value& want, const char* how) {
  std::string text;
  bool direct = r.chance(50);
  // A serializer that was given another value before stores the last one.
  std::vector<dap::any> before;
  std::vector<Value> beforeValues;
  for (int k = r.chance(20) ? int(r.range(1, 3)) : 0; k > 0; k--) {
    beforeValues.push_back(mj::genValue(r, int(r.below(4))));
    before.emplace_back();
    build(r, before.back(), beforeValues.back());
    mon::count("values stored over others");
  }
  CHECK(codec::encodeWith([&](dap::Serializer* s) {
          for (auto& b : before) {
            if (!s->serialize(b)) {
              return false;
            }
          }
          return direct ? dap::TypeOf<T>::type()->serialize(s, &x) : s->serialize(x);
        }, &text),
        "%s: encoding %s failed: %s", codec::backend(), how, mon::show(mj::text(want), 400).c_str());
  Value got;
  std::string err;
  CHECK(mj::parse(text, &got, &err), "%s: the text of %s is not valid JSON (%s): %s", codec::backend(), how, err.c_str(), mon::show(text, 600).c_str());
  same(want, got, std::string("the text of ") + how + (before.empty() ? " differs" : ", stored over " + mon::show(mj::text(beforeValues.back()), 100) + ", differs"));
  for (int k = 0; k < 2; k++) {
    std::string t = k ? mj::text(want, &r) : text;
    T y;
    CHECK(direct ? codec::decode(dap::TypeOf<T>::type(), &y, t) : codec::decodeWith([&](const dap::Deserializer* d) { return d->deserialize(&y); }, t),
          "%s: %s text of %s cannot be decoded: %s", codec::backend(), k ? "independent" : "its own", how, mon::show(t, 600).c_str());
    same(want, proto::toValue(y), std::string(how) + " decoded from " + (k ? "independent" : "its own") + " text");
    if (r.chance(20)) {
      std::string again;
      CHECK(codec::encode(dap::TypeOf<T>::type(), &y, &again), "%s: encoding the decoded value failed", codec::backend());
      Value g;
      CHECK(mj::parse(again, &g, &err), "%s: the text of the decoded value is not valid JSON (%s)", codec::backend(), err.c_str());
      same(want, g, std::string("the text of the decoded ") + how);
    }
  }
  mon::count("values round-tripped");
}

void one(mon::Rng& r) {
  auto v = genTree(r);
  mon::cover(mon::hash(mj::text(v)));
  mon::count("elements", leaves(v));
  dap::any a;
  build(r, a, v);
  roundTrip(r, a, v, "an any");
  if (r.chance(30)) {
    dap::any b = a, c;
    c = std::move(a);
    roundTrip(r, b, v, "a copied any");
    roundTrip(r, c, v, "a moved any");
  }
  switch (v.kind) {
    case mj::Bool:
      roundTrip(r, dap::boolean(v.b), v, "a boolean");
      break;
    case mj::Int:
      roundTrip(r, dap::integer(v.i), v, "an integer");
      break;
    case mj::Double:
      roundTrip(r, dap::number(v.d), v, "a number");
      break;
    case mj::String:
      roundTrip(r, dap::string(v.s), v, "a string");
      break;
    case mj::Array: {
      dap::array<dap::any> x;
      proto::assign(x, v);
      roundTrip(r, x, v, "an array");
      break;
    }
    case mj::Object: {
      dap::object x;
      proto::assign(x, v);
      roundTrip(r, x, v, "an object");
      break;
    }
    case mj::Null: {
      // Known to the type descriptions only.
      dap::null n;
      std::string text;
      auto* t = dap::TypeOf<dap::null>::type();
      CHECK(codec::encode(t, &n, &text), "%s: null cannot be encoded", codec::backend());
      CHECK(codec::decode(t, &n, "null"), "%s: null cannot be decoded", codec::backend());
      break;
    }
    default:
      break;
  }
  using Var = dap::variant<dap::array<dap::any>, dap::boolean, dap::integer, dap::null, dap::number, dap::object, dap::string>;
  if (r.chance(50)) {
    Var x;
    proto::assign(x, v);
    roundTrip(r, x, v, "a variant");
  }
  if (r.chance(1)) {
    mon::sample(mj::text(v));
  }
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c07");
  // jsoncpp itself reads numbers in the program's locale: not there.
  if (mon::opt().shard == 1 && std::string(codec::backend()) != "jsoncpp") {
    mon::foreignLocale();
  }
  mon::startWatchdog();
  mon::cases(1000, [](uint64_t, mon::Rng& r) { one(r); });
  return mon::finish();
}
