// C14: the public interface is free of data races.
//
// Runs under ThreadSanitizer, which decides. The workloads below use the library
// from many threads in the ways its interface allows, and synchronise by nothing
// but the library itself: counters are relaxed atomics, which order nothing, so
// that the harness cannot hide a missing synchronisation.
#include "codec.h"
#include "netutil.h"
#include "proto.h"
#include "sess.h"

#include "chan.h"
#include "dap/dap.h"
#include "rwmutex.h"

using mj::Value;

namespace {

proto::Schema schema;
const auto relaxed = std::memory_order_relaxed;

struct Counter {
  std::atomic<uint64_t> n{0};
  void add(uint64_t k = 1) { n.fetch_add(k, relaxed); }
  uint64_t get() const { return n.load(relaxed); }
};

// ---- first use of types ----
template <int N>
struct Deep {
  using T = dap::array<typename Deep<N - 1>::T>;
};
template <>
struct Deep<0> {
  using T = dap::variant<dap::integer, dap::string>;
};
template <int N>
struct All {
  static void go(std::vector<const dap::TypeInfo*>& v) {
    v.push_back(dap::TypeOf<typename Deep<N>::T>::type());
    v.push_back(dap::TypeOf<dap::optional<typename Deep<N>::T>>::type());
    All<N - 1>::go(v);
  }
};
template <>
struct All<-1> {
  static void go(std::vector<const dap::TypeInfo*>&) {}
};

void firstUse(mon::Rng& r) {
  auto& types = proto::types();
  int n = 8;
  std::vector<std::vector<const dap::TypeInfo*>> got(static_cast<size_t>(n));
  std::atomic<int> ready{0};
  mon::Threads ts;
  for (int t = 0; t < n; t++) {
    auto seed = r.next();
    ts.go([&, t, seed] {
      mon::Rng q(seed);
      std::vector<size_t> order(types.size());
      for (size_t i = 0; i < order.size(); i++) {
        order[i] = i;
      }
      if (q.chance(50)) {
        q.shuffle(order);
      }
      auto& v = got[size_t(t)];
      v.resize(types.size());
      ready.fetch_add(1, relaxed);
      while (ready.load(relaxed) < n) {
      }
      All<12>::go(v);
      v.push_back(dap::TypeOf<dap::any>::type());
      v.push_back(dap::TypeOf<dap::object>::type());
      v.push_back(dap::TypeOf<dap::null>::type());
      for (auto i : order) {
        v[i] = types[i].info();
        CHECK(v[i]->size() > 0, "no size");
        std::string name = v[i]->name();
        auto x = types[i].make();
        std::string text;
        CHECK(codec::encode(v[i], x.get(), &text), "cannot encode %s", types[i].cpp);
      }
    });
  }
  ts.join();
  for (int t = 1; t < n; t++) {
    CHECK(got[size_t(t)] == got[0], "two threads got different type descriptions");
  }
  mon::count("type descriptions first used by several threads", got[0].size());
}

// ---- sessions ----
struct Link {
  std::shared_ptr<dap::ReaderWriter> a, b, ab, ba;
  netutil::Tcp tcp;
};
Link makeLink(mon::Rng& r) {
  Link l;
  if (r.chance(40)) {
    l.tcp = netutil::connectPair(r);
    l.a = l.tcp.client;
    l.b = l.tcp.peer;
  } else {
    l.ab = dap::pipe();
    l.ba = dap::pipe();
    l.a = dap::ReaderWriter::create(l.ba, l.ab);
    l.b = dap::ReaderWriter::create(l.ab, l.ba);
  }
  return l;
}

void sessions(mon::Rng& r) {
  auto l = makeLink(r);
  bool cut = r.chance(25);
  auto a = dap::Session::create(), b = dap::Session::create();
  Counter handled, errs, sentNotes, answered;
  std::vector<std::thread> answerers;  // of the dispatching thread of b, joined at the end
  std::mutex answererMutex;
  auto& qs = proto::requests();
  auto& es = proto::events();
  // Answers, read by the handlers only.
  std::map<std::string, Value> answers;
  std::vector<size_t> early, late;
  for (size_t i = 0; i < qs.size(); i++) {
    answers[qs[i].type.cpp] = schema.gen(r, schema.structs.at(qs[i].response.cpp), 40, 2);
    std::string c = qs[i].type.cpp;
    if (c == "ThreadsRequest" || c == "EvaluateRequest") {
      continue;
    }
    (r.chance(60) ? early : late).push_back(i);
  }
  const auto& ans = answers;
  auto handle = [&](dap::Session* s, size_t i) {
    std::string cpp = qs[i].type.cpp;
    qs[i].handle(s, [&, cpp](const Value&) {
      handled.add();
      return ans.at(cpp);
    });
  };
  for (auto i : early) {
    handle(b.get(), i);
  }
  // Answered by other threads.
  b->registerHandler([&](const dap::ThreadsRequest&, std::function<void(dap::ResponseOrError<dap::ThreadsResponse>)> cb) {
    handled.add();
    uint64_t k = handled.get();
    if (cut) {
      cb(dap::Error("cut"));
      return;
    }
    std::unique_lock<std::mutex> lock(answererMutex);
    answerers.emplace_back([&, cb, k] {
      if (k % 3 == 0) {
        usleep(useconds_t(k % 7 * 50));
      }
      if (k % 4 == 0) {
        cb(dap::Error("no %d", int(k)));
      } else {
        dap::ThreadsResponse x;
        x.threads.resize(size_t(k % 5));
        cb(x);
      }
      answered.add();
    });
  });
  // Asks back and waits.
  b->registerHandler([&](const dap::EvaluateRequest& q) -> dap::ResponseOrError<dap::EvaluateResponse> {
    handled.add();
    dap::EvaluateResponse x;
    x.result = "ok";
    if (cut) {
      return x;
    }
    dap::RunInTerminalRequest back;
    back.args.push_back(q.expression);
    back.cwd = "/";
    auto got = b->send(back).get();
    x.result = got.error ? got.error.message : "ok";
    return x;
  });
  a->registerHandler([&](const dap::RunInTerminalRequest&) {
    handled.add();
    return dap::RunInTerminalResponse();
  });
  size_t half = es.size() / 2;
  for (size_t i = 0; i < es.size(); i++) {
    if (i < half) {
      es[i].handle(a.get(), [&](const Value&) { handled.add(); });
    }
    if (i % 3) {
      es[i].handle(b.get(), [&](const Value&) { handled.add(); });
    }
  }
  b->registerSentHandler([&](const dap::ResponseOrError<dap::ThreadsResponse>&) { sentNotes.add(); });
  a->onError([&](const char*) { errs.add(); });
  b->bind(l.b);
  a->bind(l.a, [&] { errs.add(); });
  {
    mon::Threads ts;
    std::atomic<bool> stop{false};
    int senders = int(2 + r.below(4));
    std::atomic<int> left{senders};
    int perThread = cut ? 60 : 25;
    for (int t = 0; t < senders; t++) {
      auto seed = r.next();
      ts.go([&, seed] {
        mon::Rng q(seed);
        std::vector<std::function<proto::Answer()>> waits;
        for (int k = 0; k < perThread; k++) {
          mon::progress();
          switch (q.below(5)) {
            case 0: {
              auto f = std::make_shared<dap::future<dap::ResponseOrError<dap::ThreadsResponse>>>(a->send(dap::ThreadsRequest()));
              auto w = [f] {
                f->get();
                return proto::Answer();
              };
              if (!cut && q.chance(40)) {
                w();
              } else {
                waits.push_back(w);
              }
              break;
            }
            case 1: {
              dap::EvaluateRequest e;
              e.expression = "x";
              auto f = std::make_shared<dap::future<dap::ResponseOrError<dap::EvaluateResponse>>>(a->send(e));
              auto w = [f] {
                while (f->wait_for(std::chrono::milliseconds(1)) != dap::future_status::ready) {
                }
                f->get();
                return proto::Answer();
              };
              if (!cut && q.chance(40)) {
                w();
              } else {
                waits.push_back(w);
              }
              break;
            }
            case 2: {
              auto& e = es[q.below(es.size())];
              e.send(a.get(), schema.gen(q, schema.structs.at(e.type.cpp), 30, 2));
              break;
            }
            default: {
              auto i = early[q.below(early.size())];
              auto w = qs[i].send(a.get(), schema.gen(q, schema.structs.at(qs[i].type.cpp), 30, 2));
              if (!cut && q.chance(50)) {
                w();
              } else {
                waits.push_back(w);
              }
            }
          }
          if (q.chance(20)) {
            usleep(useconds_t(q.below(100)));
          }
        }
        if (!cut) {
          for (auto& w : waits) {
            w();
          }
        }
        left.fetch_sub(1, relaxed);
      });
    }
    for (int t = 0; t < 2; t++) {
      auto seed = r.next();
      ts.go([&, seed] {
        mon::Rng q(seed);
        for (int k = 0; k < 60 && left.load(relaxed) > 0; k++) {
          mon::progress();
          auto& e = es[q.below(es.size())];  // half of them have no handler: errors
          e.send(b.get(), schema.gen(q, schema.structs.at(e.type.cpp), 30, 2));
          usleep(useconds_t(20 + q.below(200)));
        }
      });
    }
    auto seed = r.next();
    ts.go([&, seed] {
      mon::Rng q(seed);
      for (size_t i = 0; i < es.size(); i++) {
        if (i >= half && i % 4) {  // some never get one
          es[i].handle(a.get(), [&](const Value&) { handled.add(); });
        }
        if (i % 3 == 0) {
          es[i].handle(b.get(), [&](const Value&) { handled.add(); });
        }
        usleep(useconds_t(q.below(100)));
      }
      for (auto i : late) {
        handle(q.chance(50) ? b.get() : a.get(), i);
        usleep(useconds_t(q.below(200)));
      }
      a->registerSentHandler([&](const dap::ResponseOrError<dap::RunInTerminalResponse>&) { sentNotes.add(); });
      b->registerSentHandler([&](const dap::ResponseOrError<dap::EvaluateResponse>&) { sentNotes.add(); });
    });
    seed = r.next();
    ts.go([&, seed] {
      mon::Rng q(seed);
      for (int k = 0; k < 100 && left.load(relaxed) > 0; k++) {
        mon::progress();
        (q.chance(50) ? a : b)->onError([&](const char* m) { errs.add(m[0] != 0); });
        usleep(useconds_t(q.below(300)));
      }
    });
    if (cut) {
      usleep(useconds_t(r.below(3000)));
      if (l.ab && r.chance(50)) {
        (r.chance(50) ? l.ab : l.ba)->close();
      } else {
        (r.chance(50) ? l.a : l.b)->close();
      }
    }
  }
  // All that was asked is answered (or the link is cut and nobody answers late):
  // the threads that answered may still be inside the session.
  {
    std::unique_lock<std::mutex> lock(answererMutex);
    for (auto& t : answerers) {
      t.join();
    }
  }
  if (r.chance(50)) {
    l.a->close();
  }
  if (r.chance(50)) {
    a.reset();
  }
  b.reset();
  a.reset();
  mon::count("handlers run", handled.get());
  mon::count("errors reported", errs.get());
  mon::count("answers from other threads", answered.get());
}


// ---- streams ----
void streams(mon::Rng& r) {
  int kind = int(r.below(4));
  netutil::Tcp tcp;
  std::shared_ptr<dap::Reader> in;
  std::shared_ptr<dap::Writer> out;
  std::shared_ptr<dap::ReaderWriter> rw, log;
  if (kind == 0) {
    rw = dap::pipe();
    in = rw;
    out = rw;
  } else if (kind == 1) {
    tcp = netutil::connectPair(r);
    in = tcp.client;
    out = tcp.peer;
  } else if (kind == 2) {
    rw = dap::pipe();
    log = dap::pipe();
    in = dap::spy(std::static_pointer_cast<dap::Reader>(rw), log, "r ");
    out = dap::spy(std::static_pointer_cast<dap::Writer>(rw), log, "w ");
  } else {
    tcp = netutil::connectPair(r);
    auto both = dap::ReaderWriter::create(tcp.client, tcp.client);
    in = both;
    out = tcp.peer;
  }
  Counter bytes;
  std::atomic<bool> stop{false};
  mon::Threads ts;
  for (int t = 0; t < int(1 + r.below(3)); t++) {
    auto seed = r.next();
    ts.go([&, seed] {
      mon::Rng q(seed);
      std::string s(1 + q.below(3000), 'x');
      while (out->write(s.data(), s.size())) {
        bytes.add(s.size());
        if (stop.load(relaxed)) {
          break;
        }
        if (q.chance(30)) {
          usleep(useconds_t(q.below(100)));
        }
      }
    });
  }
  for (int t = 0; t < int(1 + r.below(kind == 2 ? 1 : 2)); t++) {
    ts.go([&] {
      char b[4096];
      while (in->read(b, sizeof b)) {
      }
    });
  }
  if (log) {
    ts.go([&] {
      char b[4096];
      while (log->read(b, sizeof b)) {
      }
    });
  }
  ts.go([&] {
    while (!stop.load(relaxed)) {
      if (in->isOpen() && out->isOpen()) {
        usleep(50);
      } else {
        break;
      }
    }
  });
  usleep(useconds_t(r.below(4000)));
  // The reading end is closed: a write blocked on a full socket buffer would wait
  // for the other side to notice, so both ends go.
  int closers = int(1 + r.below(2));
  for (int t = 0; t < closers; t++) {
    ts.go([&, t] {
      if (t) {
        out->close();
        in->close();
      } else {
        in->close();
        out->close();
      }
    });
  }
  usleep(200);
  stop.store(true, relaxed);
  if (log) {
    log->close();
  }
  ts.join();
  mon::count("bytes through streams", bytes.get());
}

void files(mon::Rng& r) {
  std::string path = mon::opt().tmp + "/f" + std::to_string(mon::st().currentCase.load());
  {
    auto f = dap::file(path.c_str());
    mon::Threads ts;
    for (int t = 0; t < 3; t++) {
      ts.go([&] {
        for (int k = 0; k < 50; k++) {
          f->write("0123456789", 10);
          f->isOpen();
        }
      });
    }
    if (r.chance(70)) {
      auto pause = r.below(600);
      ts.go([&, pause] {
        usleep(useconds_t(pause));
        f->close();
      });
    }
  }
  unlink(path.c_str());
  mon::count("files");
}

// ---- servers ----
void servers(mon::Rng& r) {
  auto server = dap::net::Server::create();
  Counter served, failed, connected;
  for (int round = 0; round < 2; round++) {
    int port = netutil::startServer(r, server.get(), [&](const std::shared_ptr<dap::ReaderWriter>& c) {
      served.add();
      char b[8];
      c->read(b, sizeof b);
      c->write("hi", 2);
      c->close();
    });
    mon::Threads ts;
    std::atomic<bool> stop{false};
    for (int t = 0; t < 3; t++) {
      ts.go([&] {
        for (int k = 0; k < 4 && !stop.load(relaxed); k++) {
          auto c = dap::net::connect("127.0.0.1", port, 2000);
          if (!c) {
            failed.add();
            continue;
          }
          connected.add();
          c->write("hello", 5);
          if (stop.load(relaxed)) {
            c->close();
          }
          char b[8];
          c->read(b, sizeof b);
        }
      });
    }
    usleep(useconds_t(r.below(8000)));
    stop.store(true, relaxed);
    if (round == 1 && r.chance(50)) {
      server.reset();
    } else {
      server->stop();
    }
    ts.join();
  }
  // Started and stopped by several threads.
  auto other = dap::net::Server::create();
  {
    mon::Threads ts;
    for (int t = 0; t < 3; t++) {
      auto seed = r.next();
      ts.go([&, seed] {
        mon::Rng q(seed);
        for (int k = 0; k < 6; k++) {
          if (q.chance(50)) {
            other->start(netutil::randomPort(q), [](const std::shared_ptr<dap::ReaderWriter>&) {});
          } else {
            other->stop();
          }
        }
      });
    }
  }
  other->stop();
  mon::count("connections served", served.get());
  mon::count("connections made", connected.get());
}

// ---- pending results ----
void futures(mon::Rng& r) {
  struct Box {
    std::string s;
    std::vector<int> v;
  };
  for (int k = 0; k < 10; k++) {
    auto p = std::make_shared<dap::promise<Box>>();
    auto f1 = std::make_shared<dap::future<Box>>(p->get_future());
    mon::Threads ts;
    int n = int(1 + r.below(4));
    for (int t = 0; t < n; t++) {
      auto how = r.below(4);
      auto f = std::make_shared<dap::future<Box>>(p->get_future());
      ts.go([=] {
        if (how == 0) {
          f->wait();
        } else if (how == 1) {
          while (f->wait_for(std::chrono::microseconds(50)) != dap::future_status::ready) {
          }
        } else if (how == 2) {
          while (!f->valid()) {
          }
          f->wait_until(std::chrono::steady_clock::now() + std::chrono::seconds(100));
        }
        CHECK(f->get().v.size() == 3, "another value");
      });
    }
    f1.reset();
    auto pause = r.below(200);
    ts.go([p, pause]() mutable {
      usleep(useconds_t(pause));
      Box b;
      b.s = "a string that is longer than its internal buffer";
      b.v = {1, 2, 3};
      p->set_value(b);
      p.reset();
    });
    p.reset();
    ts.join();
    mon::count("pending results");
  }
}

// ---- values that are only read, library lifetime, internal queue and lock ----
void shared(mon::Rng& r) {
  auto v = mj::genValue(r, 4);
  dap::any a;
  proto::assign(a, v);
  const dap::any& ca = a;
  auto& t = proto::types()[r.below(proto::types().size())];
  auto sv = schema.gen(r, schema.structs.at(t.cpp), 70, 3);
  auto x = t.make();
  t.assign(x.get(), sv);
  std::string want;
  CHECK(codec::encode(t.info(), x.get(), &want), "cannot encode");
  mon::Threads ts;
  dap::initialize();
  for (int k = 0; k < 4; k++) {
    ts.go([&] {
      dap::initialize();
      for (int i = 0; i < 5; i++) {
        dap::any copy = ca;
        CHECK(mj::equal(proto::toValue(copy), v), "a copied value differs");
        std::string text;
        codec::encode(t.info(), x.get(), &text);
        auto y = t.make();
        codec::decode(t.info(), y.get(), text);
        CHECK(mj::equal(t.toValue(y.get()), sv), "a decoded value differs");
      }
      dap::terminate();
    });
  }
  ts.join();
  dap::terminate();
  mon::count("shared values");
}

void queue(mon::Rng& r) {
  dap::Chan<std::string> c;
  Counter taken;
  int producers = int(1 + r.below(3)), consumers = int(1 + r.below(3));
  {
    mon::Threads ps, cs;
    for (int t = 0; t < consumers; t++) {
      cs.go([&] {
        while (auto x = c.take()) {
          taken.add(x.value().size() > 0);
        }
      });
    }
    for (int t = 0; t < producers; t++) {
      ps.go([&] {
        for (int k = 0; k < 100; k++) {
          c.put(std::string(40, 'x'));
        }
      });
    }
    ps.join();
    c.close();
  }
  CHECK(taken.get() == uint64_t(producers) * 100, "items lost");
  // Emptied and reopened while it is used.
  {
    dap::Chan<std::string> q;
    std::atomic<bool> over{false};
    mon::Threads cs;
    cs.go([&] {
      while (!over.load(relaxed)) {
        if (auto x = q.take()) {
          taken.add(x.value().size() > 0);
        }
      }
    });
    {
      mon::Threads ps;
      for (int t = 0; t < 2; t++) {
        ps.go([&, t] {
          for (int k = 0; k < 50; k++) {
            if (k % 10 == 3 + t) {
              q.reset();
            }
            q.put(std::string(40, 'x'));
          }
        });
      }
    }
    over.store(true, relaxed);
    q.close();
  }
  dap::RWMutex m;
  std::string data = "start";
  Counter len;
  mon::Threads ts;
  for (int t = 0; t < 4; t++) {
    ts.go([&, t] {
      for (int k = 0; k < 60; k++) {
        if ((t + k) % 3 == 0) {
          dap::WLock l(m);
          data = std::string(size_t(30 + k), char('a' + t));
        } else {
          dap::RLock l(m);
          len.add(data.size());
        }
      }
    });
  }
  ts.join();
  mon::count("queue and lock runs");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c14");
  mon::startWatchdog(30, 120);
  schema.load(getenv("VERIF_GOLDEN"));
  std::string mode = mon::opt().mode;
  if (mode == "types") {
    // Only the first case of a process meets types that were never used.
    mon::cases(1, [](uint64_t, mon::Rng& r) { firstUse(r); });
    return mon::finish();
  }
  mon::cases(20, [&](uint64_t i, mon::Rng& r) {
    if (i == 0) {
      firstUse(r);
    }
    auto k = r.below(20);
    auto run = [&](const char* name, void (*f)(mon::Rng&)) {
      mon::desc(name);
      mon::cover(mon::combine(mon::hash(std::string(name)), r.next() % 1000003));
      f(r);
    };
    if (k < 6) {
      run("sessions", sessions);
    } else if (k < 10) {
      run("streams", streams);
    } else if (k < 11) {
      run("files", files);
    } else if (k < 14) {
      run("servers", servers);
    } else if (k < 16) {
      run("futures", futures);
    } else if (k < 18) {
      run("shared values", shared);
    } else {
      run("queue and lock", queue);
    }
  });
  return mon::finish();
}
