// C17: the in-memory pipe delivers every byte once, in order.
#include "dap/io.h"

#include "mon.h"

namespace {

// A record names its writer, number and length; its filler is derived from them.
std::string record(uint32_t w, uint32_t n, size_t fill) {
  std::string s;
  uint32_t h[3] = {w ^ 0xabcd0000u, n, uint32_t(fill)};
  s.append(reinterpret_cast<char*>(h), 12);
  uint64_t x = mon::mix((uint64_t(w) << 32) | n);
  for (size_t i = 0; i < fill; i++) {
    if (i % 8 == 0) {
      x = mon::mix(x);
    }
    s += char(x >> (8 * (i % 8)));
  }
  return s;
}

size_t readSize(mon::Rng& r) {
  switch (r.below(6)) {
    case 0: return 1;
    case 1: return 1 + r.below(11);
    case 2: return 1 + r.below(100);
    case 3: return 4096;
    case 4: return 100000;
    default: return 1 + r.below(3000);
  }
}

// Reads with guard bytes behind the buffer.
size_t guardedRead(dap::Reader* p, std::string* out, size_t n) {
  std::vector<char> b(n + 16, char(0x5a));
  size_t c = p->read(b.data(), n);
  CHECK(c <= n, "read of %zu bytes returned %zu", n, c);
  for (size_t i = c; i < b.size(); i++) {
    CHECK(b[i] == 0x5a, "read returned %zu bytes but changed byte %zu of the buffer", c, i);
  }
  out->append(b.data(), c);
  return c;
}

void streams(uint64_t i, mon::Rng& r) {
  auto p = dap::pipe();
  CHECK(p->isOpen(), "a new pipe is not open");
  int writers = int(r.range(1, 6));
  int per = int(r.range(1, 120));
  mon::desc(mon::fmt("streams writers=%d per=%d", writers, per));
  std::atomic<uint64_t> bytes{0};
  mon::Threads ts;
  mon::Barrier bar(writers + 1);
  for (int w = 0; w < writers; w++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, w, tr] {
      bar.arrive();
      for (int k = 0; k < per; k++) {
        size_t fill = tr->chance(3) ? tr->below(70000) : tr->below(tr->chance(30) ? 2000 : 60);
        auto s = record(uint32_t(w), uint32_t(k), fill);
        bytes += s.size();
        CHECK(p->write(s.data(), s.size()), "write to an open pipe failed");
        if (tr->chance(5)) {
          CHECK(p->write("", 0), "empty write to an open pipe failed");
        }
        mon::jitter(*tr, 5);
      }
    });
  }
  bar.arrive();
  std::vector<uint32_t> next(size_t(writers), 0);
  std::string buf;
  size_t total = size_t(writers) * size_t(per), seen = 0;
  uint64_t sig = 0;
  std::vector<size_t> sizes;
  while (seen < total) {
    size_t c = guardedRead(p.get(), &buf, readSize(r));
    CHECK(c > 0, "read of an open pipe returned nothing");
    mon::progress();
    size_t pos = 0;
    while (buf.size() - pos >= 12) {
      uint32_t h[3];
      memcpy(h, buf.data() + pos, 12);
      uint32_t w = h[0] ^ 0xabcd0000u;
      CHECK(w < uint32_t(writers), "bytes out of order: record of writer %u", w);
      CHECK(h[1] == next[w], "record %u of writer %u, want %u", h[1], w, next[w]);
      if (buf.size() - pos < 12 + size_t(h[2])) {
        break;
      }
      CHECK(buf.compare(pos, 12 + h[2], record(w, h[1], h[2])) == 0, "a record's bytes are not contiguous or changed");
      next[w]++;
      seen++;
      sig = mon::combine(sig, w);
      pos += 12 + h[2];
    }
    buf.erase(0, pos);
    mon::jitter(r, 3);
  }
  ts.join();
  CHECK(buf.empty(), "%zu bytes too many", buf.size());
  mon::count("records", total);
  mon::count("bytes", bytes);
  mon::cover(sig);
  if (i < 3) {
    mon::sample(mon::fmt("%d writers x %d records, %llu bytes", writers, per, (unsigned long long)bytes.load()));
  }
}

// Much written before anything is read.
void backlog(uint64_t, mon::Rng& r) {
  auto p = dap::pipe();
  size_t mb = size_t(r.range(1, 40));
  mon::desc(mon::fmt("backlog of %zu MB", mb));
  uint32_t n = 0;
  for (size_t left = mb << 20; left > 0; n++) {
    size_t fill = std::min<size_t>(left, 1 + r.below(3 << 20));
    auto s = record(1, n, fill);
    CHECK(p->write(s.data(), s.size()), "write to an open pipe failed");
    left -= fill;
    mon::progress();
  }
  std::string buf;
  uint32_t k = 0;
  size_t seen = 0;
  while (k < n) {
    size_t c = guardedRead(p.get(), &buf, 1 + r.below(1 << 20));
    CHECK(c > 0, "read of an open pipe returned nothing");
    seen += c;
    size_t pos = 0;
    uint32_t h[3];
    while (k < n && buf.size() - pos >= 12) {
      memcpy(h, buf.data() + pos, 12);
      CHECK(h[0] == (1 ^ 0xabcd0000u) && h[1] == k, "bytes out of order");
      if (buf.size() - pos < 12 + size_t(h[2])) {
        break;
      }
      CHECK(buf.compare(pos, 12 + h[2], record(1, k, h[2])) == 0, "a record's bytes are not contiguous or changed");
      pos += 12 + h[2];
      k++;
    }
    buf.erase(0, pos);
    mon::progress();
  }
  CHECK(buf.empty(), "%zu bytes too many", buf.size());
  mon::maximum("largest_backlog", seen);
}

// Several readers: every byte goes to exactly one of them, in order at each.
void readers(uint64_t, mon::Rng& r) {
  auto p = dap::pipe();
  int n = int(r.range(2, 5));
  uint32_t count = uint32_t(r.range(100, 4000));
  mon::Threads ts;
  std::vector<std::vector<uint32_t>> got(static_cast<size_t>(n));
  std::atomic<uint32_t> seen{0};
  for (int k = 0; k < n; k++) {
    ts.go([&, k] {
      // Byte reads of a 4-byte stream would split numbers: read single bytes of
      // a stream in which each byte is its own item.
      while (true) {
        uint8_t b[64];
        size_t c = p->read(b, 64);
        if (c == 0) {
          CHECK(!p->isOpen(), "read of an open pipe returned nothing");
          return;
        }
        for (size_t j = 0; j < c; j++) {
          got[size_t(k)].push_back(b[j]);
        }
        seen += uint32_t(c);
        mon::progress();
      }
    });
  }
  std::vector<size_t> want(256, 0);
  for (uint32_t k = 0; k < count; k++) {
    uint8_t b[3];
    size_t c = 1 + r.below(3);
    for (size_t j = 0; j < c; j++) {
      b[j] = uint8_t(r.next());
      want[b[j]]++;
    }
    p->write(b, c);
    mon::jitter(r, 1);
  }
  size_t total = 0;
  for (auto w : want) {
    total += w;
  }
  mon::waitUntil([&] { return seen >= total; });
  p->close();
  ts.join();
  std::vector<size_t> have(256, 0);
  for (auto& g : got) {
    for (auto b : g) {
      have[b]++;
    }
  }
  CHECK(have == want, "bytes lost, duplicated or changed between several readers");
  mon::count("bytes", total);
  mon::count("shared_reader_runs");
}

// A read returns as soon as there is at least one byte.
void prompt(uint64_t, mon::Rng& r) {
  auto p = dap::pipe();
  std::string model;
  for (int k = 0, n = int(r.range(1, 40)); k < n; k++) {
    if (r.chance(60) || model.empty()) {
      std::string s;
      for (size_t j = 0, c = 1 + r.below(r.chance(10) ? 9000 : 40); j < c; j++) {
        s += char(r.next());
      }
      CHECK(p->write(s.data(), s.size()), "write failed");
      model += s;
    } else {
      std::string got;
      size_t ask = r.chance(40) ? model.size() + 1 + r.below(100) : readSize(r);
      size_t c = guardedRead(p.get(), &got, ask);  // hangs if it waits for more
      CHECK(c >= 1 && c <= model.size() && got == model.substr(0, c), "read %zu bytes that are not the next ones", c);
      model.erase(0, c);
      mon::progress();
    }
  }
  // And a reader that was waiting is woken by a single byte.
  {
    std::string rest;
    while (!model.empty()) {
      size_t c = guardedRead(p.get(), &rest, 100);
      model.erase(0, c);
    }
    mon::Threads ts;
    std::string got;
    ts.go([&] { guardedRead(p.get(), &got, 50); });
    mon::jitter(r, 70);
    p->write("z", 1);
    ts.join();
    CHECK(got == "z", "woken reader got %zu bytes", got.size());
  }
  mon::count("prompt_runs");
}

// Every blocked reader is woken when there are bytes for it, however few writes
// bring them.
void shared(uint64_t, mon::Rng& r) {
  auto p = dap::pipe();
  for (int round = 0, rounds = int(r.range(1, 4)); round < rounds; round++) {
    int n = int(r.range(2, 6));
    std::atomic<int> started{0};
    std::atomic<size_t> got{0};
    std::atomic<int> sum{0};
    mon::Threads ts;
    for (int k = 0; k < n; k++) {
      ts.go([&] {
        uint8_t b = 0;
        started++;
        size_t c = p->read(&b, 1);
        CHECK(c == 1, "read of one byte returned %zu", c);
        got += c;
        sum += b;
        mon::progress();
      });
    }
    mon::waitUntil([&] { return started == n; });
    if (r.chance(80)) {
      usleep(useconds_t(r.below(300)));
    }
    // All the bytes in one write, or in a few.
    std::string bytes;
    int want = 0;
    for (int k = 0; k < n; k++) {
      bytes += char(1 + r.below(100));
      want += bytes.back();
    }
    for (size_t at = 0; at < bytes.size();) {
      size_t c = r.chance(60) ? bytes.size() - at : 1 + r.below(bytes.size() - at);
      CHECK(p->write(bytes.data() + at, c), "write failed");
      at += c;
    }
    ts.join();  // hangs if a reader sleeps on
    CHECK(got == size_t(n) && sum == want, "%zu bytes for %d readers, sum %d, expected %d", got.load(), n, sum.load(), want);
    mon::count("readers_woken_together", uint64_t(n));
    mon::cover(mon::combine(mon::hash(bytes), uint64_t(n)));
  }
}

void closing(uint64_t, mon::Rng& r) {
  auto p = dap::pipe();
  int blocked = int(r.range(0, 4)), writers = int(r.range(0, 3));
  bool data = blocked == 0 && r.chance(50);
  mon::desc(mon::fmt("closing blocked=%d writers=%d data=%d", blocked, writers, data));
  if (data) {
    p->write("left", 4);
  }
  std::atomic<bool> closing{false}, closed{false};
  mon::Threads ts;
  for (int k = 0; k < blocked; k++) {
    ts.go([&] {
      char b[16];
      while (size_t c = p->read(b, 16)) {
        (void)c;
        mon::progress();
      }
      CHECK(closing, "a read returned nothing before the pipe was closed");
    });
  }
  for (int k = 0; k < writers; k++) {
    auto tr = std::make_shared<mon::Rng>(r.fork());
    ts.go([&, tr] {
      while (true) {
        bool was = closed;
        bool ok = p->write("abc", 3);
        CHECK(!(was && ok), "a write after close succeeded");
        CHECK(ok || closing, "a write to an open pipe failed");
        if (!ok) {
          return;
        }
        mon::jitter(*tr, 30);
        mon::progress();
        usleep(20);
      }
    });
  }
  mon::jitter(r, 80);
  CHECK(p->isOpen(), "not open before close");
  closing = true;
  p->close();
  closed = true;
  CHECK(!p->isOpen(), "open after close");
  char b[8];
  CHECK(p->read(b, 8) == 0, "a read after close returned data");
  CHECK(!p->write("x", 1), "a write after close succeeded");
  if (r.chance(30)) {
    p->close();
    CHECK(!p->isOpen(), "open after a second close");
  }
  ts.join();
  CHECK(p->read(b, 8) == 0 && !p->write("x", 1) && !p->isOpen(), "a closed pipe came back");
  mon::count("closings");
  mon::cover(mon::combine(uint64_t(blocked * 8 + writers), uint64_t(data)));
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c17");
  mon::startWatchdog();
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    if (i % 200 == 50) {
      backlog(i, r);
      return;
    }
    switch (r.below(9)) {
      case 8: shared(i, r); break;
      case 0: readers(i, r); break;
      case 1: prompt(i, r); break;
      case 2: case 3: closing(i, r); break;
      default: streams(i, r);
    }
  });
  return mon::finish();
}
