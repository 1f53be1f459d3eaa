// C24: library state lives exactly as long as it is used. Every case is a program
// of its own (this executable, run again), as the state exists once per process.
#include "mon.h"

#include "dap/dap.h"
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "json_serializer.h"

#include <spawn.h>
#include <sys/wait.h>

extern char** environ;

// ---- a type of the application, whose description can be watched ----
struct Own {
  dap::integer a = 0;
};
static std::atomic<int> ownTiLive{0}, ownTiMade{0};
struct OwnTI : dap::BasicTypeInfo<Own> {
  OwnTI() : BasicTypeInfo<Own>("own") {
    ownTiLive++;
    ownTiMade++;
  }
  ~OwnTI() override { ownTiLive--; }
  bool deserialize(const dap::Deserializer* d, void* p) const override { return d->deserialize(&static_cast<Own*>(p)->a); }
  bool serialize(dap::Serializer* s, const void* p) const override { return s->serialize(static_cast<const Own*>(p)->a); }
};
namespace dap {
template <>
struct TypeOf<Own> {
  static constexpr bool has_custom_serialization = true;
  static const TypeInfo* type() {
    static auto ti = TypeInfo::create<OwnTI>();
    return ti;
  }
};
}  // namespace dap

// A struct described with the library's macros.
namespace app {
struct Pt {
  dap::integer x = 0;
  dap::optional<dap::array<dap::string>> names;
};
struct Ext : dap::LaunchRequest {
  dap::string program;
};
}  // namespace app
namespace dap {
DAP_STRUCT_TYPEINFO(app::Pt, "pt", DAP_FIELD(x, "x"), DAP_FIELD(names, "names"));
DAP_STRUCT_TYPEINFO_EXT(app::Ext, dap::LaunchRequest, "launch", DAP_FIELD(program, "program"));
}  // namespace dap

namespace {

#define EXPECT(cond, what)                                                   \
  do {                                                                       \
    if (!(cond)) {                                                           \
      fprintf(stderr, "CHILD-VIOLATION: %s [%s] line %d\n", what, #cond, __LINE__); \
      fflush(stderr);                                                        \
      _exit(9);                                                              \
    }                                                                        \
  } while (0)

// ---- the child ----
struct Script {
  bool active = false;
  int kind = 0;
  uint64_t seed = 0;
  bool refA = false, refC = false, refD = false;  // who calls initialize()
  bool useA = false, useC = false;                // uses in constructors
};
Script& script() {
  static Script* s = [] {
    auto p = new Script();
    if (const char* e = getenv("VERIF_C24")) {
      p->active = true;
      p->seed = strtoull(e, nullptr, 10);
      mon::Rng r(p->seed);
      p->kind = int(r.below(3));
      p->refA = r.chance(60);
      p->refC = r.chance(40);
      p->refD = r.chance(40);
      p->useA = r.chance(60);
      p->useC = r.chance(60);
    }
    return p;
  }();
  return *s;
}
std::atomic<int> uses{0};
int depth = 0;  // own outstanding initialize() calls, static ones

std::string encode(const dap::any& v) {
  dap::json::Serializer s;
  EXPECT(s.serialize(v), "a value cannot be encoded");
  return s.dump();
}

// One value of each sort, and what it must still be later.
dap::any makeValue(int k) {
  switch (k) {
    case 0:
      return dap::integer(41);
    case 1:
      return dap::string("a string that is too long for any small buffer in there");
    case 2:
      return dap::array<dap::integer>{1, 2, 3};
    case 3: {
      dap::object o;
      o["k"] = dap::array<dap::any>{dap::any(dap::number(1.5)), dap::any(dap::boolean(true))};
      return o;
    }
    case 4: {
      dap::Source s;
      s.name = "source";
      s.path = "/a/path/that/is/long/enough/to/be/on/the/heap";
      s.sourceReference = 7;
      return s;
    }
    case 5: {
      app::Pt p;
      p.x = 5;
      p.names = dap::array<dap::string>{"one", "two"};
      return p;
    }
    case 6: {
      Own o;
      o.a = 99;
      return o;
    }
    case 7: {
      dap::StackTraceResponse r;
      dap::StackFrame f;
      f.id = 3;
      f.name = "frame";
      r.stackFrames.push_back(f);
      return r;
    }
    case 8: {
      app::Ext e;
      e.program = "prog";
      e.noDebug = true;
      return e;
    }
    default:
      return dap::variant<dap::integer, dap::string>(dap::string("in a variant"));
  }
}
void checkValue(const dap::any& v, int k) {
  switch (k) {
    case 0:
      EXPECT(v.is<dap::integer>() && v.get<dap::integer>() == 41, "an integer changed");
      break;
    case 1:
      EXPECT(v.is<dap::string>() && v.get<dap::string>().size() == 55, "a string changed");
      break;
    case 2:
      EXPECT(v.is<dap::array<dap::integer>>() && v.get<dap::array<dap::integer>>().size() == 3, "an array changed");
      break;
    case 3:
      EXPECT(v.is<dap::object>() && encode(v).find("1.5") != std::string::npos, "an object changed");
      break;
    case 4:
      EXPECT(v.is<dap::Source>() && v.get<dap::Source>().sourceReference.value(0) == 7, "a struct changed");
      EXPECT(encode(v).find("\"sourceReference\":7") != std::string::npos, "a struct is encoded differently");
      break;
    case 5:
      EXPECT(v.is<app::Pt>() && v.get<app::Pt>().x == 5, "a struct of the application changed");
      EXPECT(encode(v).find("\"two\"") != std::string::npos, "a struct of the application is encoded differently");
      break;
    case 6:
      EXPECT(v.is<Own>() && v.get<Own>().a == 99, "a value with its own description changed");
      EXPECT(ownTiLive.load() == 1, "a type description is gone, or made twice, while it is used");
      break;
    case 7:
      EXPECT(v.is<dap::StackTraceResponse>() && v.get<dap::StackTraceResponse>().stackFrames.size() == 1, "a response changed");
      EXPECT(encode(v).find("\"frame\"") != std::string::npos, "a response is encoded differently");
      break;
    case 8:
      EXPECT(v.is<app::Ext>() && v.get<app::Ext>().program == "prog", "an extended request changed");
      EXPECT(encode(v).find("noDebug") != std::string::npos, "an extended request is encoded differently");
      break;
    default: {
      using V = dap::variant<dap::integer, dap::string>;
      EXPECT(v.is<V>() && v.get<V>().is<dap::string>() && v.get<V>().get<dap::string>() == "in a variant", "a variant changed");
    }
  }
  EXPECT(!v.is<dap::boolean>(), "a type query answers true for another type");
  uses++;
  mon::progress();
}
const int kinds = 10;

// A session that talks over an in-memory pipe.
void useSession() {
  auto p = dap::pipe();
  auto s = dap::Session::create();
  s->connect(dap::pipe(), p);
  dap::OutputEvent e;
  e.output = "text";
  s->send(e);
  std::string got;
  char c[256];
  while (got.find("\"text\"") == std::string::npos) {
    size_t n = p->read(c, sizeof c);
    EXPECT(n > 0, "the event never arrived");
    got.append(c, n);
  }
  EXPECT(got.find("Content-Length: ") == 0 && got.find("\"output\"") != std::string::npos, "the event was not written properly");
  uses++;
}

void use(mon::Rng& r, std::vector<std::pair<int, dap::any>>* keep = nullptr) {
  int n = int(r.range(1, 6));
  for (int i = 0; i < n; i++) {
    int k = int(r.below(kinds));
    dap::any v = makeValue(k);
    checkValue(v, k);
    dap::any w = v;
    checkValue(w, k);
    if (keep && r.chance(60)) {
      keep->emplace_back(k, v);
    }
  }
  if (r.chance(25)) {
    useSession();
  }
}

struct End {  // destroyed last of all
  ~End() {
    if (!script().active) {
      return;
    }
    EXPECT(ownTiLive.load() == 0, "the library left a type description behind at the end of the program");
    EXPECT(ownTiMade.load() <= 1, "a type description was made more than once");
    char b[64];
    int n = snprintf(b, sizeof b, "CHILD-DONE %d\n", uses.load());
    if (write(2, b, size_t(n)) < 0) {
      _exit(8);
    }
  }
};

struct Holder {
  bool ref, on;
  uint64_t seed;
  std::vector<std::pair<int, dap::any>> kept;
  Holder(bool on, bool ref, bool useNow, uint64_t seed) : ref(ref), on(on), seed(seed) {
    if (!on) {
      return;
    }
    mon::Rng r(seed);
    bool early = r.chance(50);
    if (ref && early) {
      dap::initialize();
    }
    if (useNow) {
      use(r, ref ? &kept : nullptr);
    }
    if (ref && !early) {
      dap::initialize();
    }
    if (ref) {
      depth++;
    }
  }
  ~Holder() {
    if (!on) {
      return;
    }
    mon::Rng r(seed + 1);
    // Legal while some static holder has initialized and not yet terminated.
    if (depth > 0) {
      for (auto& k : kept) {
        checkValue(k.second, k.first);
      }
      use(r);
      int n = int(r.below(3));
      for (int i = 0; i < n; i++) {
        dap::initialize();
      }
      use(r);
      for (int i = 0; i < n; i++) {
        dap::terminate();
      }
      for (auto& k : kept) {
        checkValue(k.second, k.first);
      }
    }
    kept.clear();
    if (ref) {
      depth--;
      dap::terminate();
    }
  }
};

End theEnd __attribute__((init_priority(101)));
Holder holderA __attribute__((init_priority(102)))(script().active && script().kind != 2, script().refA, script().useA, script().seed + 100);
Holder holderC(script().active && script().kind != 2, script().refC, script().useC, script().seed + 200);

template <typename T>
void addType(std::vector<std::pair<const dap::TypeInfo*, size_t>>* v) {
  v->emplace_back(dap::TypeOf<T>::type(), sizeof(T));
}
// Every type once, in an order that differs by thread.
std::vector<std::pair<const dap::TypeInfo*, size_t>> allTypes(int from) {
  using F = void (*)(std::vector<std::pair<const dap::TypeInfo*, size_t>>*);
  static const F fs[] = {
      addType<dap::boolean>, addType<dap::integer>, addType<dap::number>, addType<dap::string>, addType<dap::object>, addType<dap::any>,
      addType<dap::null>, addType<dap::array<dap::integer>>, addType<dap::array<dap::string>>, addType<dap::array<dap::any>>,
      addType<dap::array<dap::array<dap::number>>>, addType<dap::optional<dap::integer>>, addType<dap::optional<dap::string>>,
      addType<dap::optional<dap::array<dap::boolean>>>, addType<dap::variant<dap::integer, dap::string>>,
      addType<dap::variant<dap::string, dap::integer>>, addType<dap::optional<dap::variant<dap::boolean, dap::string>>>,
      addType<Own>, addType<app::Pt>, addType<dap::array<app::Pt>>, addType<app::Ext>, addType<dap::Source>, addType<dap::StackFrame>,
      addType<dap::array<dap::StackFrame>>, addType<dap::InitializeRequest>, addType<dap::InitializeResponse>, addType<dap::OutputEvent>,
      addType<dap::optional<dap::Source>>, addType<dap::Capabilities>, addType<dap::LaunchRequest>, addType<dap::SetBreakpointsRequest>};
  const size_t n = sizeof fs / sizeof *fs;
  std::vector<std::pair<const dap::TypeInfo*, size_t>> one, out(n);
  for (size_t i = 0; i < n; i++) {
    size_t j = (i + size_t(from)) % n;
    one.clear();
    fs[j](&one);
    out[j] = one[0];
  }
  return out;
}

void firstUse(mon::Rng& r) {
  int n = int(r.range(2, 8));
  bool sameOrder = r.chance(60);
  mon::Barrier b(n);
  std::vector<std::vector<std::pair<const dap::TypeInfo*, size_t>>> seen{size_t(n)};
  {
    mon::Threads th;
    for (int i = 0; i < n; i++) {
      th.go([&, i] {
        b.arrive();
        if (i % 3 == 1) {
          dap::initialize();
        }
        seen[size_t(i)] = allTypes(sameOrder ? 0 : i * 5);
        for (int k = 0; k < kinds; k++) {
          checkValue(makeValue(k), k);
        }
        if (i % 3 == 1) {
          dap::terminate();
        }
      });
    }
    th.join();
  }
  auto later = allTypes(7);
  std::set<const dap::TypeInfo*> distinct;
  for (size_t j = 0; j < later.size(); j++) {
    for (int i = 0; i < n; i++) {
      EXPECT(seen[size_t(i)][j].first == later[j].first, "threads got different descriptions of one type");
    }
    EXPECT(distinct.insert(later[j].first).second, "two types share one description");
    EXPECT(later[j].first->size() == later[j].second, "a type description gives the wrong size");
    uses++;
  }
  EXPECT(ownTiMade.load() == 1, "a type description was made more than once");
}

int childMain() {
  auto& s = script();
  mon::startWatchdog();
  mon::Rng r(s.seed + 300);
  if (s.kind == 2) {
    firstUse(r);
    return 0;
  }
  std::unique_ptr<Holder> inMain;
  int n = int(r.range(0, 5));
  for (int i = 0; i < n; i++) {
    switch (r.below(5)) {
      case 0:
        use(r);
        break;
      case 1: {
        static const int deep[] = {255, 256, 257, 1000, 65536, 70000};
        int k = r.chance(25) ? deep[r.below(6)] : int(r.range(1, 4));
        for (int j = 0; j < k; j++) {
          dap::initialize();
        }
        use(r);
        for (int j = 0; j < k; j++) {
          dap::terminate();
          if (k < 10 || (j + 1) % (k / 3) == 0) {
            use(r);
          }
        }
        break;
      }
      case 2: {
        mon::Threads th;
        int k = int(r.range(2, 5));
        for (int j = 0; j < k; j++) {
          uint64_t seed = r.next();
          th.go([seed] {
            mon::Rng q(seed);
            for (int i = 0; i < 3; i++) {
              dap::initialize();
              use(q);
              dap::terminate();
            }
          });
        }
        th.join();
        break;
      }
      case 3:
        use(r, &holderA.kept);
        if (!s.refA) {
          holderA.kept.clear();
        }
        break;
      default:
        use(r, s.refC ? &holderC.kept : nullptr);
    }
    if (i == 1) {
      static Holder holderD(true, s.refD, r.chance(50), s.seed + 400);
    }
  }
  return 0;
}

// ---- the parent ----
void one(mon::Rng& r) {
  std::string seed = std::to_string(r.next() >> 1);
  std::string ev = "VERIF_C24=" + seed;
  mon::desc("program " + ev);
  std::vector<char*> env;
  for (char** e = environ; *e; e++) {
    env.push_back(*e);
  }
  env.push_back(&ev[0]);
  env.push_back(nullptr);
  char exe[] = "/proc/self/exe";
  char* argv[] = {exe, nullptr};
  int out[2];
  if (pipe(out) != 0) {
    mon::inconclusive("no pipe");
  }
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, out[1], 1);
  posix_spawn_file_actions_adddup2(&fa, out[1], 2);
  posix_spawn_file_actions_addclose(&fa, out[0]);
  pid_t pid;
  if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, env.data()) != 0) {
    mon::inconclusive("cannot run the program again");
  }
  posix_spawn_file_actions_destroy(&fa);
  close(out[1]);
  std::string text;
  char b[4096];
  double t0 = mon::now();
  while (true) {
    ssize_t n = read(out[0], b, sizeof b);
    if (n <= 0) {
      break;
    }
    text.append(b, size_t(n));
  }
  close(out[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  mon::maximum("longest_program_ms", uint64_t((mon::now() - t0) * 1000));
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    mon::inconclusive("a program was killed");
  }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    fprintf(stderr, "%s\n", text.c_str());
    size_t p = text.find("CHILD-VIOLATION");
    if (p == std::string::npos) {
      p = text.find("SUMMARY:");
    }
    mon::violation(mon::fmt("a program that uses the library within its initialize/terminate calls ended with status %d: %s", st,
                            mon::show(p == std::string::npos ? text : text.substr(p), 400).c_str()));
  }
  size_t p = text.find("CHILD-DONE ");
  CHECK(p != std::string::npos, "a program ended before its static destruction was complete: %s", mon::show(text).c_str());
  mon::count("programs");
  mon::count("values_used", strtoull(text.c_str() + p + 11, nullptr, 10));
  mon::cover(mon::hash(seed));
}

}  // namespace

int main(int argc, char** argv) {
  if (script().active) {
    return childMain();
  }
  mon::init(argc, argv, "c24");
  mon::cases(50, [](uint64_t, mon::Rng& r) { one(r); });
  return mon::finish();
}
