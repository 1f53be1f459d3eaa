// C26: the types generated from a schema behave as the schema says.
//
// Compiled once; linked with the sources the generator made and with a list of the
// types made independently from the schema (lib/protogen.py). The table of the
// expected structs is read from VERIF_GOLDEN.
#include "codec.h"
#include "proto.h"

using mj::Value;

namespace proto {
std::vector<std::string> fuzzRequests();
}

namespace {

proto::Schema schema;
Value table;

void same(const Value& want, const Value& got, const std::string& what) {
  std::string where;
  if (!mj::equal(want, got, &where)) {
    mon::violation(what + " at " + where + "; expected " + mon::show(mj::text(want), 700) + " got " + mon::show(mj::text(got), 700));
  }
}

void oneType(mon::Rng& r, const proto::Type& t, uint64_t round) {
  auto& s = schema.structs.at(t.cpp);
  std::string what = t.cpp;
  auto info = t.info();
  if (round == 0) {
    CHECK(s.kind == "response" || s.kind == "type" || info->name() == s.name, "%s: named '%s', the schema says '%s'", what.c_str(), info->name().c_str(), s.name.c_str());
    // The members a default-constructed struct has set.
    auto x = t.make();
    auto v = t.toValue(x.get());
    for (auto& f : table.find(t.cpp)->find("fields")->a) {
      auto& wire = f.find("wire")->s;
      auto got = v.find(wire);
      if (f.find("optional")->b) {
        CHECK(!got, "%s.%s: optional, but set from the start", what.c_str(), wire.c_str());
        continue;
      }
      auto d = f.find("default");
      if (f.find("type")->s == "string") {
        std::string want = d && d->kind == mj::String ? d->s : "";
        CHECK(got && got->kind == mj::String && got->s == want, "%s.%s: starts as '%s', the schema's first enumerator is '%s'", what.c_str(), wire.c_str(), got ? got->s.c_str() : "(unset)", want.c_str());
        mon::count("initial values compared");
      }
    }
  }
  auto want = schema.gen(r, s, round == 0 ? 100 : round == 1 ? 0 : 50, 2);
  mon::cover(mon::hash(mj::text(want), mon::hash(what)));
  auto x = t.make();
  t.assign(x.get(), want);
  std::string text, err;
  CHECK(codec::encode(info, x.get(), &text), "%s: encoding failed", what.c_str());
  Value got;
  CHECK(mj::parse(text, &got, &err), "%s: the encoded form is not JSON (%s): %s", what.c_str(), err.c_str(), mon::show(text, 500).c_str());
  same(want, got, what + ": the encoded form differs from the value");
  std::string other = mj::text(want, &r);
  auto z = t.make();
  CHECK(codec::decode(info, z.get(), other), "%s: cannot be decoded: %s", what.c_str(), mon::show(other, 700).c_str());
  same(want, t.toValue(z.get()), what + ": decoding gave another value: " + mon::show(other, 500));
  mon::count("values encoded and decoded");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c26");
  mon::startWatchdog();
  schema.load(getenv("VERIF_GOLDEN"));
  {
    FILE* f = fopen(getenv("VERIF_GOLDEN"), "r");
    std::string text, err;
    char b[65536];
    while (size_t n = fread(b, 1, sizeof b, f)) {
      text.append(b, n);
    }
    fclose(f);
    if (!mj::parse(text, &table, &err)) {
      mon::inconclusive("no table");
    }
  }
  std::multiset<std::string> want, got;
  for (auto& s : schema.structs) {
    if (s.second.kind == "request") {
      want.insert(s.second.name);
    }
  }
  for (auto& n : proto::fuzzRequests()) {
    got.insert(n);
  }
  if (want != got) {
    mon::violation("the fuzzer's list of requests is not the schema's");
  }
  mon::cases(6, [](uint64_t i, mon::Rng& r) {
    for (auto& t : proto::types()) {
      mon::desc(t.cpp);
      oneType(r, t, i);
    }
  });
  return mon::finish();
}
