// C13: session closure is notified exactly once.
#include "netutil.h"
#include "sess.h"

#include <fcntl.h>

using namespace sess;

namespace {

void run(uint64_t i, mon::Rng& r) {
  int how = int(r.below(10));
  static const char* names[] = {"peer ends the stream", "pipe closed", "tcp closed by the peer", "file ends", "invalid data", "own destruction", "peer session destroyed", "tcp shut down by a raw peer", "stream closed locally", "output lost first"};
  int nresp = int(r.below(12)), nev = int(r.below(12));
  mon::desc(mon::fmt("%s, %d responses, %d events", names[how], nresp, nev));
  std::atomic<int> closed{0};
  std::atomic<bool> ended{false}, destroyed{false};
  std::atomic<int> events{0};
  std::vector<Pending> ps;
  std::atomic<bool> haveAll{false};
  auto s = dap::Session::create();
  Errors errs;
  s->onError([&](const char* e) { errs.add(e); });
  s->registerHandler([&](const dap::EvX& e) {
    CHECK(verify(e, e.tag, EVT).empty(), "event content");
    events++;
  });
  // Everything received before the end must be decoded before the callback.
  auto onClose = [&] {
    CHECK(ended, "%s: closure notified before the endpoint closed", names[how]);
    CHECK(!destroyed, "%s: closure notified after the destructor returned", names[how]);
    int n = ++closed;
    CHECK(n == 1, "%s: closure notified %d times", names[how], n);
    if (haveAll) {
      for (auto& p : ps) {
        CHECK(p.ready(), "%s: closure notified before a response received earlier was decoded", names[how]);
      }
    }
    mon::progress();
  };
  std::string data;
  mj::Value v;
  auto build = [&](std::shared_ptr<dap::Reader> fromSession) {
    // Ask first, so that there is something to answer.
    RawReader rd(fromSession);
    std::vector<int64_t> seqs;
    for (int k = 0; k < nresp; k++) {
      ps.push_back(sendKind(s.get(), "ABDE"[r.below(4)], k + 1, r.chance(50)));
      CHECK(rd.next(&v), "the session's output ended");
      seqs.push_back(intField(v, "seq"));
    }
    std::vector<std::string> parts;
    for (int k = 0; k < nresp; k++) {
      parts.push_back(frame::wrap(mj::text(rawAnswer(ps[size_t(k)].kind, k + 1, k + 1, seqs[size_t(k)]))));
    }
    for (int k = 0; k < nev; k++) {
      parts.push_back(frame::wrap(mj::text(msgEvent(k + 1, "evX", tree(k, EVT)))));
    }
    r.shuffle(parts);
    for (auto& p : parts) {
      data += p;
    }
    CHECK(closed == 0, "%s: closure notified while open", names[how]);
  };
  auto checkPending = [&] {
    for (auto& p : ps) {
      CHECK(p.ready() && p.check().empty(), "%s: a response received before the close is lost or wrong", names[how]);
    }
  };
  bool partial = r.chance(30);
  std::string tail = partial ? std::string("Content-Length: 50\r\n\r\n{\"seq\"").substr(0, 1 + r.below(28)) : "";
  bool pause = r.chance(50);
  auto settle = [&] {
    if (pause) {
      usleep(useconds_t(r.below(3000)));
      CHECK(closed == 0, "%s: closure notified while open", names[how]);
    }
  };
  auto awaitClosed = [&] {
    mon::waitUntil([&] { return closed > 0; });
    checkPending();
  };
  bool allDelivered = true;
  switch (how) {
    case 0: {
      Wire::Config c;
      c.maxRead = r.chance(50) ? 1 + r.below(100) : 0;
      c.seed = r.next();
      auto in = std::make_shared<Wire>(c), out = std::make_shared<Wire>();
      s->bind(in, out, onClose);
      build(out);
      haveAll = true;
      in->put(data + tail);
      settle();
      ended = true;
      in->end();
      awaitClosed();
      break;
    }
    case 1: {
      auto in = dap::pipe(), out = dap::pipe();
      s->bind(in, out, onClose);
      build(out);
      in->write(data.data(), data.size());
      // What a pipe still holds when it is closed is dropped: let it be read.
      for (auto& p : ps) {
        p.await();
      }
      mon::waitUntil([&] { return events == nev; });
      haveAll = true;
      settle();
      ended = true;
      in->close();
      awaitClosed();
      break;
    }
    case 2:
    case 6: {
      auto t = netutil::connectPair(r);
      s->bind(t.client, onClose);
      build(t.peer);
      haveAll = true;
      CHECK(t.peer->write(data.data(), data.size()), "write failed");
      settle();
      if (how == 6 && data.empty()) {
        auto q = dap::Session::create();
        q->bind(t.peer);
        mon::jitter(r, 50);
        ended = true;
        q.reset();
      } else {
        ended = true;
        t.peer->close();
      }
      awaitClosed();
      t.server->stop();
      break;
    }
    case 3: {
      int fds[2];
      if (pipe2(fds, O_CLOEXEC) != 0) {
        mon::inconclusive("pipe2");
      }
      auto out = std::make_shared<Wire>();
      auto in = dap::file(fdopen(fds[0], "rb"), true);
      s->bind(in, out, onClose);
      // The file reader may wait for a whole buffer: give it everything and end it.
      build(out);
      haveAll = true;
      data += tail;
      size_t p = 0;
      while (p < data.size()) {
        ssize_t n = write(fds[1], data.data() + p, std::min<size_t>(data.size() - p, 1 + r.below(400)));
        CHECK(n > 0, "write");
        p += size_t(n);
      }
      settle();
      ended = true;
      close(fds[1]);
      awaitClosed();
      break;
    }
    case 4: {
      // A close-on-invalid session.
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->setOnInvalidData(dap::kClose);
      s->bind(in, out, onClose);
      build(out);
      haveAll = true;
      in->put(data);
      settle();
      ended = true;
      static const char* bad[] = {"garbage garbage garbage\r\n\r\n", "Content-Length: x\r\n\r\n", "Content-Length: 12\n\n{}", "{\"seq\":1}{\"seq\":1}{\"seq\":1}", "Content-Length: 0\r\n\r\n"};
      in->put(bad[r.below(5)]);
      awaitClosed();
      CHECK(in->isClosed(), "invalid data did not close the stream");
      break;
    }
    case 5: {
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->bind(in, out, onClose);
      build(out);
      in->put(data);
      settle();
      allDelivered = false;
      break;
    }
    case 7: {
      int port;
      int lfd = netutil::rawListen(r, &port);
      auto c = dap::net::connect("127.0.0.1", port);
      CHECK(bool(c), "cannot connect");
      int fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
      CHECK(fd >= 0, "accept");
      s->bind(c, onClose);
      nresp = 0;
      for (int k = 0; k < nev; k++) {
        data += frame::wrap(mj::text(msgEvent(k + 1, "evX", tree(k, EVT))));
      }
      for (size_t p = 0; p < data.size();) {
        ssize_t n = send(fd, data.data() + p, data.size() - p, MSG_NOSIGNAL);
        CHECK(n > 0, "send");
        p += size_t(n);
      }
      settle();
      ended = true;
      if (r.chance(50)) {
        shutdown(fd, SHUT_WR);  // half close: no more input for the session
      } else {
        close(fd);
        fd = -1;
      }
      mon::waitUntil([&] { return closed > 0; });
      if (fd >= 0) {
        close(fd);
      }
      close(lfd);
      break;
    }
    case 9: {
      // Only the output is gone: the session fails to send, but goes on reading.
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->bind(in, out, onClose);
      build(out);
      haveAll = true;
      bool first = r.chance(50);
      if (first) {
        in->put(data);
      }
      if (r.chance(60)) {
        out->close();
      } else {
        out->refuse(1);
      }
      for (int k = 0, c = int(r.range(1, 4)); k < c; k++) {
        if (r.chance(50)) {
          dap::EvY e;
          fill(e, k, EVT);
          s->send(e);
        } else {
          auto p = sendKind(s.get(), 'A', 1000 + k, false);
          CHECK(k > 0 || out->isOpen() || p.ready(), "a request on a closed stream is not complete");
        }
        mon::jitter(r, 30);
      }
      if (pause) {
        usleep(useconds_t(r.below(3000)));
      }
      CHECK(closed == 0 && !in->isClosed(), "closure notified, or the input closed, when only the output was gone");
      if (!first) {
        in->put(data);
      }
      mon::waitUntil([&] { return events == nev; });
      for (auto& p : ps) {
        p.await();
      }
      settle();
      CHECK(closed == 0 && !in->isClosed(), "closure notified, or the input closed, when only the output was gone");
      ended = true;
      in->end();
      awaitClosed();
      break;
    }
    default: {
      // The stream is closed by the application itself.
      auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
      s->bind(in, out, onClose);
      build(out);
      in->put(data);
      for (auto& p : ps) {
        p.await();
      }
      mon::waitUntil([&] { return events == nev; });
      haveAll = true;
      settle();
      ended = true;
      in->close();
      awaitClosed();
      break;
    }
  }
  // Nothing may follow, and every event received has been handled by the end.
  if (r.chance(30)) {
    usleep(useconds_t(r.below(2000)));
  }
  ended = true;
  s.reset();
  destroyed = true;
  CHECK(closed == 1, "%s: closure notified %d times", names[how], closed.load());
  if (allDelivered) {
    CHECK(events == nev, "%s: %d of %d events received before the close were handled", names[how], events.load(), nev);
  }
  mon::count(names[how]);
  mon::cover(mon::combine(mon::combine(uint64_t(how), uint64_t(nresp * 20 + nev)), uint64_t(partial * 2 + pause)));
  if (i < 5) {
    mon::sample(mon::st().caseDesc);
  }
}

// Startup variants: callbacks are optional, and a session that is never started
// never reports closure.
void unstarted(uint64_t, mon::Rng& r) {
  std::atomic<int> closed{0};
  auto in = std::make_shared<Wire>(), out = std::make_shared<Wire>();
  {
    auto s = dap::Session::create();
    switch (r.below(4)) {
      case 0: break;
      case 1: s->connect(in, out); break;
      default:
        // The endpoint is closed before processing starts.
        auto onClose = [&] { closed++; };
        std::shared_ptr<dap::Reader> rd = in;
        std::shared_ptr<dap::Writer> wr = out;
        if (r.chance(30)) {
          auto pipe = dap::pipe();
          rd = pipe;
          wr = pipe;
          pipe->close();
        } else if (r.chance(50)) {
          in->close();
          char c;
          in->read(&c, 1);
        } else {
          in->end();
          if (r.chance(50)) {
            char c;
            in->read(&c, 1);  // known to have ended
          }
        }
        if (r.chance(50)) {
          s->bind(rd, wr, onClose);
        } else {
          s->connect(rd, wr);
          s->startProcessingMessages(onClose);
        }
        mon::waitUntil([&] { return closed > 0; });
        usleep(500);
        CHECK(closed == 1, "closure notified %d times", closed.load());
        s.reset();
        CHECK(closed == 1, "closure notified %d times", closed.load());
        mon::count("already ended at start");
        return;
    }
  }
  CHECK(closed == 0, "closure notified by a session that never started");
  mon::count("never started");
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c13");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (r.chance(8)) {
      unstarted(i, r);
    } else {
      run(i, r);
    }
  });
  return mon::finish();
}
