// C15: dynamic, variant and optional values own exactly what they hold.
#include "dap/any.h"
#include "dap/optional.h"
#include "dap/types.h"
#include "dap/typeof.h"
#include "dap/variant.h"

#include "mon.h"

namespace {

// Every live instance is registered: use of a dead or never constructed one shows.
struct Registry {
  std::unordered_set<const void*> live;
  uint64_t made = 0;
} reg;

struct Tracked {
  uint64_t magic = 0x600dc0de;
  int64_t id = 0;
  Tracked() { born(); }
  explicit Tracked(int64_t i) : id(i) { born(); }
  Tracked(const Tracked& o) : id(o.id) {
    o.alive();
    born();
  }
  Tracked& operator=(const Tracked& o) {
    alive();
    o.alive();
    id = o.id;
    return *this;
  }
  ~Tracked() {
    alive();
    magic = 0xdead;
    reg.live.erase(this);
  }
  void alive() const { CHECK(reg.live.count(this) && magic == 0x600dc0de, "an object that is not alive was used or destroyed"); }
  void born() {
    reg.made++;
    CHECK(reg.live.insert(this).second, "an object was constructed over a live one");
  }
};

}  // namespace

namespace dap {

#define HOLDER(NAME, PAD, ALIGN)                                     \
  struct alignas(ALIGN) NAME {                                       \
    Tracked t;                                                       \
    integer v;                                                       \
    uint8_t pad[PAD];                                                \
    NAME() { memset(pad, 0x11, sizeof pad); }                        \
    explicit NAME(int64_t i) : t(i), v(i) { memset(pad, int(i & 0xff), sizeof pad); } \
    bool good(int64_t i) const {                                     \
      t.alive();                                                     \
      CHECK(reinterpret_cast<uintptr_t>(this) % ALIGN == 0, "object is misaligned"); \
      for (auto p : pad) {                                           \
        if (p != uint8_t(i & 0xff)) return false;                    \
      }                                                              \
      return t.id == i && int64_t(v) == i;                           \
    }                                                                \
  };                                                                 \
  DAP_STRUCT_TYPEINFO(NAME, #NAME, DAP_FIELD(v, "v"))

HOLDER(Fit, 8, 8);        // exactly 32 bytes
HOLDER(Over, 9, 8);       // just too large for inline storage
HOLDER(Large, 500, 8);    //
HOLDER(Wide, 16, 32);     // strict alignment
HOLDER(Wider, 16, 64);    //
HOLDER(Tight, 8, 16);     // as large as the inline storage, where it is aligned

}  // namespace dap

namespace {

using dap::any;

enum Kind { Null, Bool, Int, Num, Str, Arr, IArr, SArr, Obj, FitK, OverK, LargeK, WideK, TightK, WiderK, NKinds };

struct Model {
  Kind k = Null;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<Model> a;
  std::map<std::string, Model> o;
};

std::string genStr(mon::Rng& r) { return std::string(r.below(r.chance(30) ? 200 : 24), char('a' + r.below(26))); }

Model gen(mon::Rng& r, int depth) {
  Model m;
  m.k = Kind(r.below(NKinds));
  if (depth <= 0 && (m.k == Arr || m.k == Obj)) {
    m.k = Str;
  }
  switch (m.k) {
    case Bool: m.i = r.chance(50); break;
    case Int: m.i = int64_t(r.next()); break;
    case Num: m.d = double(int64_t(r.next())) / 3; break;
    case Str: m.s = genStr(r); break;
    case Arr:
      for (size_t n = r.below(4); n > 0; n--) m.a.push_back(gen(r, depth - 1));
      break;
    case IArr:
      for (size_t n = r.below(6); n > 0; n--) {
        Model x;
        x.k = Int;
        x.i = int64_t(r.next());
        m.a.push_back(x);
      }
      break;
    case SArr:
      for (size_t n = r.below(4); n > 0; n--) {
        Model x;
        x.k = Str;
        x.s = genStr(r);
        m.a.push_back(x);
      }
      break;
    case Obj:
      for (size_t n = r.below(4); n > 0; n--) m.o["k" + std::to_string(r.below(6))] = gen(r, depth - 1);
      break;
    default: m.i = r.range(1, 1000000);
  }
  return m;
}

// Gives `v` the value of the model, by assignment of the concrete type.
void assign(any& v, const Model& m);
any make(const Model& m) {
  any v;
  assign(v, m);
  return v;
}
dap::array<any> anyArr(const Model& m) {
  dap::array<any> a;
  for (auto& x : m.a) a.push_back(make(x));
  return a;
}
dap::object anyObj(const Model& m) {
  dap::object o;
  for (auto& x : m.o) o[x.first] = make(x.second);
  return o;
}
void assign(any& v, const Model& m) {
  switch (m.k) {
    case Null: v = nullptr; break;
    case Bool: v = dap::boolean(m.i != 0); break;
    case Int: v = dap::integer(m.i); break;
    case Num: v = dap::number(m.d); break;
    case Str: v = dap::string(m.s); break;
    case Arr: v = anyArr(m); break;
    case IArr: {
      dap::array<dap::integer> a;
      for (auto& x : m.a) a.push_back(x.i);
      v = a;
      break;
    }
    case SArr: {
      dap::array<dap::string> a;
      for (auto& x : m.a) a.push_back(x.s);
      v = a;
      break;
    }
    case Obj: v = anyObj(m); break;
    case FitK: v = dap::Fit(m.i); break;
    case OverK: v = dap::Over(m.i); break;
    case LargeK: v = dap::Large(m.i); break;
    case WideK: v = dap::Wide(m.i); break;
    case TightK: v = dap::Tight(m.i); break;
    default: v = dap::Wider(m.i);
  }
}

void check(const any& v, const Model& m, const char* op) {
  bool is[NKinds] = {v.is<dap::null>(), v.is<dap::boolean>(), v.is<dap::integer>(), v.is<dap::number>(), v.is<dap::string>(), v.is<dap::array<any>>(), v.is<dap::array<dap::integer>>(), v.is<dap::array<dap::string>>(), v.is<dap::object>(), v.is<dap::Fit>(), v.is<dap::Over>(), v.is<dap::Large>(), v.is<dap::Wide>(), v.is<dap::Tight>(), v.is<dap::Wider>()};
  for (int k = 0; k < NKinds; k++) {
    CHECK(is[k] == (k == m.k), "after %s: type query %d of a value of type %d is %d", op, k, m.k, is[k]);
  }
  bool ok = true;
  switch (m.k) {
    case Null: break;
    case Bool: ok = bool(v.get<dap::boolean>()) == (m.i != 0); break;
    case Int: ok = int64_t(v.get<dap::integer>()) == m.i; break;
    case Num: ok = double(v.get<dap::number>()) == m.d; break;
    case Str: ok = v.get<dap::string>() == m.s; break;
    case Arr: {
      auto& a = v.get<dap::array<any>>();
      ok = a.size() == m.a.size();
      for (size_t n = 0; ok && n < a.size(); n++) check(a[n], m.a[n], op);
      break;
    }
    case IArr: {
      auto& a = v.get<dap::array<dap::integer>>();
      ok = a.size() == m.a.size();
      for (size_t n = 0; ok && n < a.size(); n++) ok = int64_t(a[n]) == m.a[n].i;
      break;
    }
    case SArr: {
      auto& a = v.get<dap::array<dap::string>>();
      ok = a.size() == m.a.size();
      for (size_t n = 0; ok && n < a.size(); n++) ok = a[n] == m.a[n].s;
      break;
    }
    case Obj: {
      auto& o = v.get<dap::object>();
      ok = o.size() == m.o.size();
      for (auto& x : m.o) {
        if (!ok) break;
        auto it = o.find(x.first);
        ok = it != o.end();
        if (ok) check(it->second, x.second, op);
      }
      break;
    }
    case FitK: ok = v.get<dap::Fit>().good(m.i); break;
    case OverK: ok = v.get<dap::Over>().good(m.i); break;
    case LargeK: ok = v.get<dap::Large>().good(m.i); break;
    case WideK: ok = v.get<dap::Wide>().good(m.i); break;
    case TightK: ok = v.get<dap::Tight>().good(m.i); break;
    default: ok = v.get<dap::Wider>().good(m.i);
  }
  CHECK(ok, "after %s: a value of type %d is not the one given to it", op, m.k);
}

void anys(uint64_t i, mon::Rng& r) {
  size_t live0 = reg.live.size();
  uint64_t sig = 0;
  {
    std::vector<any> v;
    std::vector<Model> m;
    size_t n = size_t(r.range(1, 8));
    for (size_t k = 0; k < n; k++) {
      v.emplace_back();
      m.emplace_back();
    }
    int ops = int(r.range(5, 60));
    for (int k = 0; k < ops; k++) {
      size_t a = r.below(v.size()), b = r.below(v.size());
      const char* op = "";
      int what = int(r.below(22));
      switch (what) {
        case 0: case 1: case 2:
          op = "assigning a value";
          m[a] = gen(r, 3);
          assign(v[a], m[a]);
          break;
        case 3: case 4:
          op = "copy assignment";
          v[a] = v[b];
          m[a] = m[b];
          break;
        case 5:
          op = "self assignment";
          {
            any& self = v[a];
            v[a] = self;
          }
          break;
        case 6:
          op = "move assignment";
          if (a != b) {
            v[a] = std::move(v[b]);
            m[a] = m[b];
            // The source is valid; give it a value again.
            m[b] = gen(r, 2);
            assign(v[b], m[b]);
          }
          break;
        case 7:
          op = "self move";
          {
            any& self = v[a];
            v[a] = std::move(self);
          }
          break;
        case 8:
          op = "reset";
          v[a].reset();
          m[a] = Model();
          break;
        case 9:
          op = "assigning null";
          v[a] = nullptr;
          m[a] = Model();
          break;
        case 10: {
          op = "copy construction";
          any c(v[a]);
          check(c, m[a], op);
          if (r.chance(50)) {
            assign(c, gen(r, 2));  // independent
          } else {
            c.reset();
          }
          break;
        }
        case 11: {
          op = "move construction";
          any c(std::move(v[a]));
          check(c, m[a], op);
          if (r.chance(50)) {
            v[a] = std::move(c);
          } else {
            v[a] = c;
          }
          break;
        }
        case 12:
          op = "assigning an element of itself";
          if (m[a].k == Arr && !m[a].a.empty()) {
            size_t e = r.below(m[a].a.size());
            if (r.chance(50)) {
              v[a] = v[a].get<dap::array<any>>()[e];
            } else {
              v[a] = std::move(v[a].get<dap::array<any>>()[e]);
            }
            Model t = m[a].a[e];
            m[a] = t;
          } else if (m[a].k == Obj && !m[a].o.empty()) {
            auto it = m[a].o.begin();
            std::advance(it, ptrdiff_t(r.below(m[a].o.size())));
            if (r.chance(50)) {
              v[a] = v[a].get<dap::object>()[it->first];
            } else {
              v[a] = std::move(v[a].get<dap::object>()[it->first]);
            }
            Model t = it->second;
            m[a] = t;
          }
          break;
        case 13:
          op = "assigning the held value to itself";
          switch (m[a].k) {
            case Str: v[a] = v[a].get<dap::string>(); break;
            case Int: v[a] = v[a].get<dap::integer>(); break;
            case Arr: v[a] = v[a].get<dap::array<any>>(); break;
            case SArr: v[a] = v[a].get<dap::array<dap::string>>(); break;
            case Obj: v[a] = v[a].get<dap::object>(); break;
            case LargeK: v[a] = v[a].get<dap::Large>(); break;
            case FitK: v[a] = v[a].get<dap::Fit>(); break;
            default:;
          }
          break;
        case 14:
          op = "assigning a typed element of itself";
          if (m[a].k == SArr && !m[a].a.empty()) {
            size_t e = r.below(m[a].a.size());
            v[a] = v[a].get<dap::array<dap::string>>()[e];
            Model t = m[a].a[e];
            m[a] = t;
          } else if (m[a].k == IArr && !m[a].a.empty()) {
            size_t e = r.below(m[a].a.size());
            v[a] = v[a].get<dap::array<dap::integer>>()[e];
            Model t = m[a].a[e];
            m[a] = t;
          } else if (m[a].k == Arr && !m[a].a.empty() && m[a].a[0].k == Str) {
            v[a] = v[a].get<dap::array<any>>()[0].get<dap::string>();
            Model t = m[a].a[0];
            m[a] = t;
          } else if (m[a].k == Arr && !m[a].a.empty() && m[a].a[0].k == Arr) {
            v[a] = v[a].get<dap::array<any>>()[0].get<dap::array<any>>();
            Model t = m[a].a[0];
            m[a] = t;
          } else if (m[a].k == Arr && !m[a].a.empty() && m[a].a[0].k == LargeK) {
            v[a] = v[a].get<dap::array<any>>()[0].get<dap::Large>();
            Model t = m[a].a[0];
            m[a] = t;
          }
          break;
        case 15:
          op = "putting a value into itself";
          if (m[a].k == Arr && m[a].a.size() < 6) {
            Model t = m[a];
            any c = v[a];
            v[a].get<dap::array<any>>().push_back(c);
            m[a].a.push_back(t);
          }
          break;
        case 16:
          op = "changing the held value in place";
          switch (m[a].k) {
            case Str:
              v[a].get<dap::string>() += "+more text to make it grow";
              m[a].s += "+more text to make it grow";
              break;
            case Int:
              v[a].get<dap::integer>() = 7;
              m[a].i = 7;
              break;
            case Arr:
              v[a].get<dap::array<any>>().emplace_back(dap::integer(3));
              {
                Model x;
                x.k = Int;
                x.i = 3;
                m[a].a.push_back(x);
              }
              break;
            default:;
          }
          break;
        case 17:
          op = "growing a container of values";
          if (v.size() < 12) {
            size_t at = r.below(v.size() + 1);
            Model x = gen(r, 2);
            v.insert(v.begin() + ptrdiff_t(at), make(x));
            m.insert(m.begin() + ptrdiff_t(at), x);
          }
          break;
        case 18:
          op = "shrinking a container of values";
          if (v.size() > 1) {
            v.erase(v.begin() + ptrdiff_t(a));
            m.erase(m.begin() + ptrdiff_t(a));
          }
          break;
        case 19:
          op = "swapping";
          std::swap(v[a], v[b]);
          std::swap(m[a], m[b]);
          break;
        case 20: {
          op = "construction from a value";
          m[a].k = Str;
          m[a].s = genStr(r);
          any c(dap::string(m[a].s));
          v[a] = c;
          break;
        }
        default: {
          op = "reassigning the same type";
          Model x = m[a];
          switch (x.k) {
            case Str: x.s = genStr(r); break;
            case Int: x.i = int64_t(r.next()); break;
            case LargeK: case FitK: case OverK: case WideK: case TightK: case WiderK: x.i = r.range(1, 1000000); break;
            case Bool: x.i = !x.i; break;
            default:;
          }
          assign(v[a], x);
          m[a] = x;
        }
      }
      for (size_t x = 0; x < v.size(); x++) {
        check(v[x], m[x], op);
      }
      mon::count(op);
      sig = mon::combine(sig, uint64_t(what * 100 + int(a < m.size() ? m[a].k : 0)));
      mon::progress();
    }
    if (i < 3) {
      mon::sample(mon::fmt("%d operations on %zu dynamic values", ops, v.size()));
    }
  }
  CHECK(reg.live.size() == live0, "%lld contained objects leaked or destroyed twice", (long long)(reg.live.size() - live0));
  mon::cover(sig);
}

using Var = dap::variant<dap::integer, dap::string, dap::array<dap::string>, dap::Large, dap::Fit, dap::object>;

struct VModel {
  int k = 0;  // index of the alternative
  int64_t i = 0;
  std::string s;
  size_t n = 0;
};
VModel vgen(mon::Rng& r) {
  VModel m;
  m.k = int(r.below(6));
  m.i = r.range(1, 100000);
  m.s = genStr(r);
  m.n = r.below(5);
  return m;
}
dap::array<dap::string> varr(const VModel& m) { return dap::array<dap::string>(m.n, m.s); }
dap::object vobj(const VModel& m) {
  dap::object o;
  o["s"] = m.s;
  o["l"] = dap::Large(m.i);
  return o;
}
void vassign(Var& v, const VModel& m) {
  switch (m.k) {
    case 0: v = dap::integer(m.i); break;
    case 1: v = dap::string(m.s); break;
    case 2: v = varr(m); break;
    case 3: v = dap::Large(m.i); break;
    case 4: v = dap::Fit(m.i); break;
    default: v = vobj(m);
  }
}
void vcheck(const Var& v, const VModel& m, const char* op) {
  bool is[6] = {v.is<dap::integer>(), v.is<dap::string>(), v.is<dap::array<dap::string>>(), v.is<dap::Large>(), v.is<dap::Fit>(), v.is<dap::object>()};
  for (int k = 0; k < 6; k++) {
    CHECK(is[k] == (k == m.k), "after %s: variant type query %d of alternative %d is %d", op, k, m.k, is[k]);
  }
  CHECK(!v.is<dap::boolean>() && !v.is<dap::number>(), "after %s: a variant claims a type it cannot hold", op);
  bool ok = true;
  switch (m.k) {
    case 0: ok = int64_t(v.get<dap::integer>()) == m.i; break;
    case 1: ok = v.get<dap::string>() == m.s; break;
    case 2: ok = v.get<dap::array<dap::string>>() == varr(m); break;
    case 3: ok = v.get<dap::Large>().good(m.i); break;
    case 4: ok = v.get<dap::Fit>().good(m.i); break;
    default: {
      auto& o = v.get<dap::object>();
      ok = o.size() == 2 && o.count("s") && o["s"].is<dap::string>() && o["s"].get<dap::string>() == m.s && o["l"].is<dap::Large>() && o["l"].get<dap::Large>().good(m.i);
    }
  }
  CHECK(ok, "after %s: a variant does not hold the value given to it", op);
}

void variants(uint64_t, mon::Rng& r) {
  size_t live0 = reg.live.size();
  uint64_t sig = 1;
  {
    std::vector<Var> v(size_t(r.range(1, 6)));
    std::vector<VModel> m(v.size());
    for (auto& x : v) {
      CHECK(x.is<dap::integer>() && int64_t(x.get<dap::integer>()) == 0, "a default variant does not hold its first alternative's default");
    }
    for (int k = 0, n = int(r.range(5, 50)); k < n; k++) {
      size_t a = r.below(v.size()), b = r.below(v.size());
      const char* op = "";
      int what = int(r.below(9));
      switch (what) {
        case 0: case 1: case 2:
          op = "assigning an alternative";
          m[a] = vgen(r);
          vassign(v[a], m[a]);
          break;
        case 3:
          op = "copy assignment";
          v[a] = v[b];
          m[a] = m[b];
          break;
        case 4:
          op = "move assignment";
          if (a != b) {
            v[a] = std::move(v[b]);
            m[a] = m[b];
            m[b] = vgen(r);
            vassign(v[b], m[b]);
          }
          break;
        case 5: {
          op = "copy construction";
          Var c(v[a]);
          vcheck(c, m[a], op);
          vassign(c, vgen(r));
          break;
        }
        case 6: {
          op = "construction from an alternative";
          m[a].k = 3;
          Var c(dap::Large(m[a].i));
          v[a] = c;
          break;
        }
        case 7:
          op = "growing a container";
          if (v.size() < 10) {
            VModel x = vgen(r);
            Var c;
            vassign(c, x);
            v.insert(v.begin() + ptrdiff_t(a), c);
            m.insert(m.begin() + ptrdiff_t(a), x);
          }
          break;
        default:
          op = "assigning the held value to itself";
          switch (m[a].k) {
            case 1: v[a] = v[a].get<dap::string>(); break;
            case 3: v[a] = v[a].get<dap::Large>(); break;
            case 2:
              if (m[a].n > 0) {
                v[a] = v[a].get<dap::array<dap::string>>()[m[a].n - 1];
                m[a].k = 1;
              }
              break;
            default: {
              Var& self = v[a];
              v[a] = self;
            }
          }
      }
      for (size_t x = 0; x < v.size(); x++) {
        vcheck(v[x], m[x], op);
      }
      sig = mon::combine(sig, uint64_t(what * 10 + m[std::min(a, m.size() - 1)].k));
      mon::progress();
    }
    // Variants inside dynamic values.
    any x = v[0];
    any y = x;
    x = v.back();
    CHECK(y.is<Var>() && x.is<Var>() && !x.is<dap::integer>(), "a variant inside a dynamic value lost its type");
    vcheck(y.get<Var>(), m[0], "nesting");
    vcheck(x.get<Var>(), m.back(), "nesting");
  }
  CHECK(reg.live.size() == live0, "%lld objects leaked or destroyed twice by variants", (long long)(reg.live.size() - live0));
  mon::count("variant_runs");
  mon::cover(sig);
}

template <typename T>
void optionals(mon::Rng& r, const std::function<T(mon::Rng&)>& gen, const std::function<bool(const T&, const T&)>& eq) {
  size_t live0 = reg.live.size();
  uint64_t sig = 2;
  {
    std::vector<dap::optional<T>> v(size_t(r.range(1, 6)));
    std::vector<std::unique_ptr<T>> m(v.size());
    auto set = [&](size_t a, const T& t) { m[a].reset(new T(t)); };
    for (int k = 0, n = int(r.range(5, 50)); k < n; k++) {
      size_t a = r.below(v.size()), b = r.below(v.size());
      const char* op = "";
      int what = int(r.below(11));
      switch (what) {
        case 0: case 1: {
          op = "assigning a value";
          T t = gen(r);
          v[a] = t;
          set(a, t);
          break;
        }
        case 2: {
          op = "moving a value in";
          T t = gen(r);
          T c = t;
          v[a] = std::move(c);
          set(a, t);
          break;
        }
        case 3:
          op = "copy assignment";
          v[a] = v[b];
          if (a != b) m[a].reset(m[b] ? new T(*m[b]) : nullptr);
          break;
        case 4:
          op = "move assignment";
          if (a != b) {
            v[a] = std::move(v[b]);
            m[a].reset(m[b] ? new T(*m[b]) : nullptr);
            v[b] = dap::optional<T>();
            m[b].reset();
          }
          break;
        case 5:
          op = "unsetting";
          v[a] = dap::optional<T>();
          m[a].reset();
          break;
        case 6: {
          op = "copy construction";
          dap::optional<T> c(v[a]);
          CHECK(c.has_value() == bool(m[a]) && (!m[a] || eq(c.value(), *m[a])), "a copied optional differs");
          c = gen(r);
          break;
        }
        case 7: {
          op = "move construction";
          dap::optional<T> c(std::move(v[a]));
          CHECK(c.has_value() == bool(m[a]) && (!m[a] || eq(c.value(), *m[a])), "a moved optional differs");
          v[a] = c;
          break;
        }
        case 8:
          op = "assigning its own value";
          if (m[a]) {
            const T& own = v[a].value();
            v[a] = own;
          }
          break;
        case 9:
          op = "changing in place";
          if (m[a]) {
            T t = gen(r);
            switch (r.below(3)) {
              case 0: *v[a] = t; break;
              case 1: v[a].value() = t; break;
              default: *(v[a].operator->()) = t;
            }
            set(a, t);
          }
          break;
        default: {
          op = "growing a container";
          if (v.size() < 10) {
            T t = gen(r);
            v.insert(v.begin(), dap::optional<T>(t));
            m.insert(m.begin(), std::unique_ptr<T>(new T(t)));
          }
        }
      }
      T dflt = gen(r);
      for (size_t x = 0; x < v.size(); x++) {
        const auto& c = v[x];
        CHECK(c.has_value() == bool(m[x]) && bool(c) == bool(m[x]), "after %s: an optional is %s", op, m[x] ? "unset" : "set");
        if (m[x]) {
          CHECK(eq(c.value(), *m[x]) && eq(*c, *m[x]) && eq(*c.operator->(), *m[x]) && eq(c.value(dflt), *m[x]), "after %s: an optional has another value", op);
        } else {
          CHECK(eq(c.value(dflt), dflt), "after %s: an unset optional does not give the default", op);
        }
      }
      sig = mon::combine(sig, uint64_t(what));
      mon::progress();
    }
  }
  CHECK(reg.live.size() == live0, "%lld objects leaked or destroyed twice by optionals", (long long)(reg.live.size() - live0));
  mon::count("optional_runs");
  mon::cover(sig);
}

void compareOptionals(mon::Rng& r) {
  for (int k = 0; k < 30; k++) {
    dap::optional<int> a, b;
    bool sa = r.chance(70), sb = r.chance(70);
    int x = int(r.range(-2, 2)), y = int(r.range(-2, 2));
    if (sa) a = x;
    if (sb) b = y;
    // Unset sorts before every value.
    auto key = [](bool s, int v) { return std::make_pair(s, s ? v : 0); };
    auto p = key(sa, x), q = key(sb, y);
    CHECK((a == b) == (p == q) && (a != b) == (p != q), "equality of optionals");
    CHECK((a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "order of optionals: %d/%d %d/%d", sa, x, sb, y);
    // Conversion between optionals of different types.
    dap::optional<dap::integer> c(a);
    CHECK(c.has_value() == sa && (!sa || int64_t(c.value()) == x), "a converted optional differs");
    dap::optional<double> d(std::move(b));
    CHECK(d.has_value() == sb && (!sb || d.value() == double(y)), "a converted optional differs");
    dap::optional<std::string> e("text");
    CHECK(e.has_value() && e.value() == "text", "an optional from a literal differs");
  }
  mon::count("optional_comparisons", 30);
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c15");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(10)) {
      case 0: optionals<std::string>(r, [](mon::Rng& q) { return genStr(q); }, [](const std::string& a, const std::string& b) { return a == b; }); break;
      case 1: optionals<dap::Large>(r, [](mon::Rng& q) { return dap::Large(q.range(1, 10000)); }, [](const dap::Large& a, const dap::Large& b) { return a.good(b.t.id) && b.good(a.t.id); }); break;
      case 2: optionals<std::shared_ptr<Tracked>>(r, [](mon::Rng& q) { return std::make_shared<Tracked>(q.range(1, 10000)); }, [](const std::shared_ptr<Tracked>& a, const std::shared_ptr<Tracked>& b) { a->alive(); return a == b; }); break;
      case 3: compareOptionals(r); break;
      case 4: case 5: variants(i, r); break;
      default: anys(i, r);
    }
  });
  return mon::finish();
}
