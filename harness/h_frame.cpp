// C04 / C05: message framing against a reference parser.
#include "content_stream.h"
#include "dap/session.h"
#include "dap/protocol.h"
#include "frame.h"

#include <algorithm>
#include <cstdio>
#include <thread>

#include <unistd.h>

namespace dap {
struct TagEvent : public Event {
  integer tag;
  optional<string> pad;
};
DAP_STRUCT_TYPEINFO(TagEvent, "tag", DAP_FIELD(tag, "tag"), DAP_FIELD(pad, "pad"));
}  // namespace dap

using frame::ScriptedReader;

static std::string describe(const std::string& stream, const std::vector<size_t>& levels, int kind) {
  return mon::fmt("stream=%zu bytes levels=%zu kind=%d ", stream.size(), levels.size(), kind) + "'" + mon::show(stream, 600) + "'";
}

// Feeds the stream to the library's message reader in the way a session does.
static void runReader(const std::string& stream, const std::vector<size_t>& levels, bool closeMode, size_t maxRead, const frame::Ref& ref) {
  auto sr = std::make_shared<ScriptedReader>(stream, levels);
  sr->maxRead = maxRead;
  dap::ContentReader reader(sr, closeMode ? dap::kClose : dap::kIgnore);
  size_t got = 0, empties = 0;
  while (reader.isOpen()) {
    std::string m = reader.read();
    mon::progress();
    if (m.empty()) {
      CHECK(++empties <= stream.size() + 16, "reader makes no progress at the end of the stream");
      continue;
    }
    CHECK(got < ref.msgs.size(), "message %zu delivered, but the stream holds only %zu: '%s'", got, ref.msgs.size(), mon::show(m).c_str());
    auto& want = ref.msgs[got];
    CHECK(m == want.body, "message %zu differs: got %zu bytes '%s', want %zu bytes '%s'", got, m.size(), mon::show(m).c_str(), want.body.size(), mon::show(want.body).c_str());
    // Delivered as soon as its last byte arrived: no further bytes were waited for.
    size_t need = *std::lower_bound(levels.begin(), levels.end(), want.end);
    CHECK(sr->available() <= need, "message %zu ends at byte %zu but was delivered only after %zu bytes had arrived", got, want.end, sr->available());
    got++;
  }
  CHECK(got == ref.msgs.size(), "%zu of %zu messages delivered; next missing: '%s'", got, ref.msgs.size(), mon::show(ref.msgs[got].body).c_str());
  if (closeMode && ref.invalid) {
    CHECK(!sr->isOpen(), "stream not closed after invalid data at offset %zu", ref.invalidAt);
  }
  if (!ref.invalid) {
    CHECK(!sr->closedByUser || (closeMode && ref.truncated), "stream closed by the reader at offset %zu without invalid data", sr->closedAt);
  }
  mon::count("messages_compared", got);
}

// The same through a session, with event messages as bodies.
static void runSession(const std::string& stream, const std::vector<size_t>& levels, bool closeMode, const std::vector<int64_t>& want, bool mustClose) {
  auto sr = std::make_shared<ScriptedReader>(stream, levels);
  std::vector<int64_t> got;
  std::mutex m;
  std::atomic<int> closes{0};
  {
    auto out = dap::pipe();
    auto s = dap::Session::create();
    s->setOnInvalidData(closeMode ? dap::kClose : dap::kIgnore);
    s->registerHandler([&](const dap::TagEvent& e) {
      std::unique_lock<std::mutex> l(m);
      got.push_back(e.tag);
      mon::progress();
    });
    s->bind(sr, out, [&] { closes++; });
    mon::waitUntil([&] { return closes > 0; });
    mon::waitUntil([&] {
      std::unique_lock<std::mutex> l(m);
      return got.size() >= want.size();
    });
    if (mustClose) {
      CHECK(!sr->isOpen(), "session did not close the stream on invalid data");
    }
  }
  CHECK(got == want, "session delivered %zu events, want %zu", got.size(), want.size());
  mon::count("session_messages", got.size());
}

// Real streams: each message is written (in pieces) only after the one before
// it has been handled, so that a session that waits for bytes it does not need
// never gets them.
static void runLive(mon::Rng& r, bool closeMode) {
  int kind = int(r.below(3));
  std::shared_ptr<dap::ReaderWriter> rd;
  int fds[2] = {-1, -1};
  std::shared_ptr<dap::ReaderWriter> p;
  if (kind == 0) {
    if (::pipe(fds) != 0) {
      mon::inconclusive("pipe() failed");
    }
    FILE* f = fdopen(fds[0], "rb");
    if (r.chance(50)) {
      setvbuf(f, nullptr, _IONBF, 0);
    }
    rd = dap::file(f);
  } else if (kind == 1) {
    p = dap::pipe();
    rd = p;
  } else {
    // A file seen through a spy.
    if (::pipe(fds) != 0) {
      mon::inconclusive("pipe() failed");
    }
    auto f = dap::file(fdopen(fds[0], "rb"));
    auto log = dap::file(tmpfile());
    rd = dap::ReaderWriter::create(dap::spy(std::static_pointer_cast<dap::Reader>(f), log), f);
  }
  auto put = [&](const std::string& text) {
    for (size_t at = 0; at < text.size();) {
      size_t n = std::min(text.size() - at, r.chance(50) ? text.size() : 1 + r.below(300));
      if (p) {
        CHECK(p->write(text.data() + at, n), "pipe write failed");
      } else if (::write(fds[1], text.data() + at, n) != ssize_t(n)) {
        mon::inconclusive("write() failed");
      }
      at += n;
      if (r.chance(20)) {
        std::this_thread::yield();
      }
    }
  };
  std::atomic<int64_t> last{-1};
  std::atomic<int> closes{0};
  {
    auto out = dap::pipe();
    auto s = dap::Session::create();
    s->setOnInvalidData(closeMode ? dap::kClose : dap::kIgnore);
    s->registerHandler([&](const dap::TagEvent& e) {
      last = e.tag;
      mon::progress();
    });
    s->bind(rd, out, [&] { closes++; });
    int n = int(r.range(2, 12));
    std::string shape;
    for (int k = 0; k < n; k++) {
      std::string pad(r.below(3) ? r.below(700) : r.below(30000), 'p');
      auto body = mon::fmt("{\"seq\":%d,\"type\":\"event\",\"event\":\"tag\",\"body\":{\"tag\":%d,\"pad\":\"%s\"}}", k + 1, k, pad.c_str());
      std::string text;
      if (!closeMode && r.chance(40)) {
        // Bytes that neither start a message nor swallow what follows.
        static const std::vector<std::string> g = {"x", "\r\n", "Content-Length: x\r\n\r\n", "Content-Lengt", "Content-Length: 0\r\n\r\n", "{}", "Content-Length: 5\n\n"};
        text += r.pick(g);
      }
      text += frame::genHeader(r, body.size()) + body;
      mon::desc(mon::fmt("live stream kind %d, message %d of %d, %zu bytes", kind, k + 1, n, text.size()));
      put(text);
      mon::waitUntil([&] { return last == k; });
      CHECK(closes == 0, "closed after message %d of a valid stream", k);
      shape += std::to_string(text.size()) + ",";
    }
    if (p) {
      p->close();
    } else {
      ::close(fds[1]);
    }
    mon::waitUntil([&] { return closes > 0; });
    mon::cover(mon::combine(mon::hash(shape), uint64_t(kind)));
    mon::count("live_messages", uint64_t(n));
  }
  rd->close();
}

// Messages of many megabytes, through the reader, the writer and a session.
static void runHuge(mon::Rng& r, bool closeMode) {
  static const std::vector<size_t> sizes = {(1u << 20) - 1, (1u << 20), (1u << 20) + 1, (1u << 22) + 3, (1u << 24) - 1, (1u << 24) + 1, (1u << 25) + 7, (1u << 26) + 1};
  size_t n = r.chance(60) ? sizes[(mon::opt().shard + r.below(3)) % 8] : 1000000 + r.below(20000000);
  mon::desc(mon::fmt("a message of %zu bytes", n));
  std::string s, body(n, 0);
  uint64_t k = r.next();
  for (size_t i = 0; i < n; i++) {
    body[i] = char(mon::mix(k + i / 8) >> (i % 8 * 8));
  }
  std::vector<size_t> ends;
  s += frame::genHeader(r, 2) + "{}";
  ends.push_back(s.size());
  s += frame::genHeader(r, n) + body;
  ends.push_back(s.size());
  s += frame::genHeader(r, 4) + "last";
  auto ref = frame::reference(s, closeMode);
  std::vector<size_t> levels;
  for (size_t at = 0; (at += 1 + r.below(200000)) < s.size();) {
    levels.push_back(at);
  }
  for (auto e : ends) {
    levels.push_back(e);
  }
  levels.push_back(s.size());
  std::sort(levels.begin(), levels.end());
  runReader(s, levels, closeMode, 0, ref);
  mon::maximum("largest_message", n);
  mon::count("huge_messages");
  mon::cover(mon::combine(k, n));
  // A session with a large text.
  std::string pad(std::min<size_t>(n, 30000000), 'p');
  auto text = mon::fmt("{\"seq\":1,\"type\":\"event\",\"event\":\"tag\",\"body\":{\"tag\":7,\"pad\":\"");
  text += pad + "\"}}";
  std::string t = frame::wrap(text) + frame::wrap("{\"seq\":2,\"type\":\"event\",\"event\":\"tag\",\"body\":{\"tag\":8}}");
  runSession(t, {t.size() / 2, t.size()}, closeMode, {7, 8}, false);
}

int main(int argc, char** argv) {
  mon::init(argc, argv, "frame");
  mon::startWatchdog();
  bool closeMode = mon::opt().mode == "close";
  mon::cases(3000, [&](uint64_t i, mon::Rng& r) {
    if (i % 8000 == 1000) {
      runHuge(r, closeMode);
      return;
    }
    if (i % 25 == 24) {
      runLive(r, closeMode);
      return;
    }
    bool viaSession = i % 10 == 9;
    bool big = i % 16 == 0;
    std::string s;
    std::vector<size_t> ends;
    uint64_t sig = 0;
    size_t n = 1 + r.below(8);
    int64_t tag = 0;
    // In close mode most streams hold one piece of garbage, some none.
    size_t garbageAt = closeMode ? r.below(n + 2) : 0;
    bool anyGarbage = false;
    for (size_t k = 0; k <= n; k++) {
      bool g = closeMode ? (k == garbageAt) : r.chance(45);
      if (g) {
        int kind;
        auto text = frame::genGarbage(r, &kind);
        s += text;
        sig = mon::combine(sig, uint64_t(100 + kind) + mon::hash(text));
        ends.push_back(s.size());
        anyGarbage = true;
      }
      if (k == n) {
        break;
      }
      std::string body;
      if (viaSession) {
        std::string pad(r.below(r.chance(20) ? 700 : 20), 'p');
        body = mon::fmt("{\"seq\":%lld,\"type\":\"event\",\"event\":\"tag\",\"body\":{\"tag\":%lld,\"pad\":\"%s\"}}", (long long)tag + 1, (long long)tag, pad.c_str());
        tag++;
      } else {
        body = frame::genBody(r, big);
      }
      auto h = frame::genHeader(r, body.size());
      ends.push_back(s.size() + 1);
      s += h;
      ends.push_back(s.size());
      s += body;
      ends.push_back(s.size());
      sig = mon::combine(sig, body.size());
    }
    if (r.chance(10) && !viaSession) {
      s.resize(s.size() - r.below(std::min<size_t>(s.size(), 40)));  // truncated stream
    }
    if (r.chance(6) && !viaSession) {  // the start of a message that is longer than memory
      static const std::vector<std::string> huge = {"18446744073709551615", "18446744073709551608", "9223372036854775807", "4611686018427387904", "1099511627776", "4294967300", "2147483653"};
      s += "Content-Length: " + r.pick(huge) + "\r\n\r\n" + std::string(r.below(300), 'x');
      if (r.chance(60)) {  // what looks like a message is part of it
        s += "Content-Length: 5\r\n\r\nhello" + std::string(r.below(30), 'y');
      }
    }
    auto ref = frame::reference(s, closeMode);
    int kind;
    auto levels = frame::genLevels(r, s.size(), ends, &kind);
    mon::desc(describe(s, levels, kind));
    if (viaSession) {
      std::vector<int64_t> want;
      for (auto& m : ref.msgs) {
        auto p = m.body.find("{\"tag\":");
        if (m.body.compare(0, 7, "{\"seq\":") == 0 && p != std::string::npos && m.body.back() == '}' && m.body.find("Content-Length") == std::string::npos) {
          want.push_back(atoll(m.body.c_str() + p + 7));
        }
      }
      runSession(s, levels, closeMode, want, closeMode && ref.invalid);
    } else {
      // The same stream under several arrivals must give the same messages.
      size_t maxRead = r.chance(25) ? 1 + r.below(20) : 0;
      runReader(s, levels, closeMode, maxRead, ref);
      if (r.chance(30)) {
        int k2;
        auto l2 = frame::genLevels(r, s.size(), ends, &k2);
        runReader(s, l2, closeMode, 0, ref);
        mon::count("rechunked_streams");
      }
    }
    mon::count("streams");
    mon::count(ref.msgs.empty() ? "streams_without_message" : "streams_with_messages");
    if (anyGarbage) mon::count("streams_with_garbage");
    if (ref.invalid) mon::count("streams_with_invalid_header");
    if (ref.truncated) mon::count("streams_truncated");
    mon::count(("arrival_kind_" + std::to_string(kind)).c_str());
    mon::maximum("largest_stream", s.size());
    if (!ref.msgs.empty() || anyGarbage) {
      mon::cover(mon::combine(sig, mon::combine(uint64_t(kind), levels.size())));
    }
    if (i < 3) {
      mon::sample(describe(s.substr(0, 200), levels, kind) + mon::fmt(" -> %zu messages", ref.msgs.size()));
    }
  });
  return mon::finish();
}
