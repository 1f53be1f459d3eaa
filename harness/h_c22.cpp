// C22: stream adapters pass bytes through unchanged.
#include "dap/io.h"

#include "mon.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>

namespace {

std::string bytes(mon::Rng& r, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) {
    s += r.chance(20) ? "\xff\x00\r\n\x1a%"[r.below(6)] : char(r.next());
  }
  return s;
}
size_t size(mon::Rng& r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return r.below(5000);
    case 3: return r.chance(20) ? 70000 : 2048;
    default: return r.below(80);
  }
}

// An endpoint that does what it is told and records every call.
struct Script : public dap::ReaderWriter {
  mon::Rng r;
  bool open = true;
  int closes = 0, opens = 0, reads = 0, writes = 0;
  std::string given, taken;
  int failPercent = 0;
  std::string lastRead;
  const void* lastBuf = nullptr;
  size_t lastN = 0;
  bool lastOk = true;
  explicit Script(mon::Rng rng) : r(rng) {}
  bool isOpen() override {
    opens++;
    return open;
  }
  void close() override {
    closes++;
    open = false;
  }
  size_t read(void* b, size_t n) override {
    reads++;
    lastN = n;
    if (!open || r.chance(failPercent) || n == 0) {
      lastRead.clear();
      return 0;
    }
    size_t c = r.chance(40) ? n : 1 + r.below(n);
    lastRead = bytes(r, c);
    memcpy(b, lastRead.data(), c);
    given += lastRead;
    return c;
  }
  bool write(const void* b, size_t n) override {
    writes++;
    lastN = n;
    lastOk = open && !r.chance(failPercent);
    if (lastOk) {
      taken.append(reinterpret_cast<const char*>(b), n);
    }
    return lastOk;
  }
};

size_t guardedRead(dap::Reader* p, std::string* out, size_t n) {
  std::vector<char> b(n + 16, char(0x5a));
  size_t c = p->read(b.data(), n);
  CHECK(c <= n, "read of %zu bytes returned %zu", n, c);
  for (size_t i = c; i < b.size(); i++) {
    CHECK(b[i] == 0x5a, "read returned %zu bytes but changed byte %zu", c, i);
  }
  out->assign(b.data(), c);
  return c;
}

// Reader + writer combined; spies; any nesting of them.
void adapters(uint64_t i, mon::Rng& r) {
  auto rd = std::make_shared<Script>(r.fork()), wr = std::make_shared<Script>(r.fork());
  auto logR = std::make_shared<Script>(r.fork()), logW = std::make_shared<Script>(r.fork());
  rd->failPercent = wr->failPercent = r.chance(50) ? int(r.below(40)) : 0;
  bool logFails = r.chance(20);
  if (logFails) {
    logR->failPercent = logW->failPercent = 50;
  }
  int shape = int(r.below(5));
  std::shared_ptr<dap::Reader> reader = rd;
  std::shared_ptr<dap::Writer> writer = wr;
  std::string pr, pw;
  bool spyR = false, spyW = false;
  auto prefix = [&]() -> std::string {
    switch (r.below(4)) {
      case 0: return "";
      case 1: return "\n<-";
      case 2: return "%s%n ";
      default: return std::string(r.below(60), 'p') + ">";
    }
  };
  if (shape == 1 || shape == 3 || shape == 4) {
    spyR = true;
    if (r.chance(20)) {
      pr = "\n->";
      reader = dap::spy(std::shared_ptr<dap::Reader>(rd), std::shared_ptr<dap::Writer>(logR));
    } else {
      pr = prefix();
      std::string tmp = pr;  // must be copied: this one goes away
      reader = dap::spy(std::shared_ptr<dap::Reader>(rd), std::shared_ptr<dap::Writer>(logR), tmp.c_str());
      std::fill(tmp.begin(), tmp.end(), '#');
    }
  }
  if (shape == 2 || shape == 3 || shape == 4) {
    spyW = true;
    if (r.chance(20)) {
      pw = "\n<-";
      writer = dap::spy(std::shared_ptr<dap::Writer>(wr), std::shared_ptr<dap::Writer>(logW));
    } else {
      pw = prefix();
      writer = dap::spy(std::shared_ptr<dap::Writer>(wr), std::shared_ptr<dap::Writer>(logW), pw.c_str());
    }
  }
  std::shared_ptr<dap::ReaderWriter> rw;
  if (shape == 0 || shape == 4 || r.chance(30)) {
    rw = dap::ReaderWriter::create(reader, writer);
    reader = rw;
    writer = rw;
  }
  mon::desc(mon::fmt("adapters shape=%d combined=%d fail=%d", shape, bool(rw), rd->failPercent));
  std::string wantLogR, wantLogW, wantWr;
  int wr0 = 0;
  for (int k = 0, n = int(r.range(1, 40)); k < n; k++) {
    switch (r.below(8)) {
      case 0: case 1: case 2: {
        size_t ask = size(r);
        std::string got;
        int calls = rd->reads;
        size_t c = guardedRead(reader.get(), &got, ask);
        CHECK(rd->reads == calls + 1 && rd->lastN == ask, "a read of %zu bytes became %d reads, the last of %zu bytes", ask, rd->reads - calls, rd->lastN);
        CHECK(c == rd->lastRead.size() && got == rd->lastRead, "a read passed on other bytes than the stream gave");
        if (spyR && c > 0) {
          wantLogR += pr + got;
        }
        break;
      }
      case 3: case 4: case 5: {
        auto s = bytes(r, size(r));
        int calls = wr->writes;
        bool ok = writer->write(s.data(), s.size());
        CHECK(wr->writes == calls + 1 && wr->lastN == s.size(), "a write of %zu bytes became %d writes, the last of %zu bytes", s.size(), wr->writes - calls, wr->lastN);
        CHECK(ok == wr->lastOk, "a write returned %d, the stream said %d", ok, wr->lastOk);
        if (ok) {
          wantWr += s;
          if (spyW) {
            wantLogW += pw + s;
          }
        }
        break;
      }
      case 6: {
        bool want = rw ? (rd->open && wr->open) : rd->open;
        CHECK(reader->isOpen() == want, "isOpen is %d, want %d", !want, want);
        want = rw ? want : wr->open;
        CHECK(writer->isOpen() == want, "isOpen is %d, want %d", !want, want);
        break;
      }
      default:
        if (logFails && r.chance(20)) {
          // The log closes: nothing that passes through a spy notices.
          (r.chance(50) ? logR : logW)->open = false;
        }
        if (r.chance(15)) {
          if (r.chance(50)) {
            // The underlying stream closes by itself.
            (r.chance(50) ? rd : wr)->open = false;
          } else if (r.chance(50)) {
            int c = rd->closes;
            reader->close();
            CHECK(rd->closes > c && !reader->isOpen(), "close was not passed on");
            CHECK(!rw || !wr->open, "close of a combined stream left its writer open");
            CHECK(rw || wr0 == wr->closes, "close of a reader closed a writer");
          } else {
            int c = wr->closes;
            writer->close();
            CHECK(wr->closes > c && !writer->isOpen(), "close was not passed on");
            CHECK(!rw || !rd->open, "close of a combined stream left its reader open");
            wr0 = wr->closes;
          }
          wr0 = wr->closes;
        }
    }
    CHECK(wr->taken == wantWr, "the writer received other bytes than were written");
    if (!logFails) {
      CHECK(logR->taken == wantLogR, "the log of the reader is '%s', want '%s'", mon::show(logR->taken).c_str(), mon::show(wantLogR).c_str());
      CHECK(logW->taken == wantLogW, "the log of the writer is '%s', want '%s'", mon::show(logW->taken).c_str(), mon::show(wantLogW).c_str());
    }
    CHECK(logR->closes == 0 && logW->closes == 0, "a spy closed its log");
    mon::progress();
  }
  mon::count("adapter_runs");
  mon::cover(mon::combine(mon::hash(wantWr), mon::combine(uint64_t(shape), mon::hash(wantLogR))));
  if (i < 3) {
    mon::sample(mon::st().caseDesc);
  }
}

std::string slurp(const std::string& path) {
  std::string s;
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  CHECK(fd >= 0, "cannot open %s", path.c_str());
  char b[8192];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) {
    s.append(b, size_t(n));
  }
  close(fd);
  return s;
}
bool fdOpen(int fd) { return fcntl(fd, F_GETFD) >= 0; }

// Files that do not take what is written to them.
void refusingFiles(uint64_t i, mon::Rng& r) {
  std::string path = mon::opt().tmp + "/r" + std::to_string(i);
  int how = int(r.below(3));
  static const char* names[] = {"opened for reading", "on a full device", "whose reader has gone"};
  mon::desc(std::string("a file ") + names[how]);
  auto data = bytes(r, 1 + size(r));
  FILE* f = nullptr;
  if (how == 0) {
    f = fopen(path.c_str(), "wb");
    fputs("content", f);
    fclose(f);
    f = fopen(path.c_str(), "rb");
  } else if (how == 1) {
    f = fopen("/dev/full", "wb");
    if (!f) {
      mon::count("no_full_device");
      return;
    }
  } else {
    int fds[2];
    CHECK(pipe2(fds, O_CLOEXEC) == 0, "pipe");
    f = fdopen(fds[1], "wb");
    close(fds[0]);
  }
  if (r.chance(30)) {
    // (not line by line: there the C library itself may hide the failure of a write)
    setvbuf(f, nullptr, r.chance(50) ? _IONBF : _IOFBF, 4096);
  }
  {
    auto w = dap::file(f);
    for (int k = int(r.range(1, 3)); k > 0; k--) {
      CHECK(!w->write(data.data(), data.size()), "writing %zu bytes to a file %s was reported as a success", data.size(), names[how]);
    }
    CHECK(w->isOpen(), "a failed write closed the file");
  }
  if (how == 0) {
    CHECK(slurp(path) == "content", "a failed write changed the file");
    unlink(path.c_str());
  }
  mon::count("files_that_refuse");
  mon::cover(mon::combine(uint64_t(how), data.size()));
}

void files(uint64_t i, mon::Rng& r) {
  std::string path = mon::opt().tmp + "/f" + std::to_string(i);
  bool closable = r.chance(60);
  int how = int(r.below(3));
  mon::desc(mon::fmt("files how=%d closable=%d", how, closable));
  size_t fds0 = mon::numFds();
  if (how == 0) {
    // Writing.
    FILE* f = fopen(path.c_str(), "wb");
    int fd = fileno(f);
    std::string want;
    {
      auto w = closable && r.chance(50) ? dap::file(f) : dap::file(f, closable);
      CHECK(w && w->isOpen(), "a wrapped file is not open");
      for (int k = 0, n = int(r.range(0, 10)); k < n; k++) {
        auto s = bytes(r, size(r));
        CHECK(w->write(s.data(), s.size()), "writing to a file failed");
        want += s;
        if (r.chance(30)) {
          CHECK(slurp(path) == want, "what was written is not in the file");
        }
        mon::progress();
      }
      CHECK(w->isOpen(), "a wrapped file is not open");
      if (r.chance(60)) {
        w->close();
        CHECK(w->isOpen() == !closable, "isOpen is %d after closing a %sclosable file", w->isOpen(), closable ? "" : "non-");
        CHECK(fdOpen(fd) == !closable, "the descriptor is %s after closing a %sclosable file", fdOpen(fd) ? "open" : "closed", closable ? "" : "non-");
        if (closable) {
          char b[4];
          CHECK(!w->write("x", 1), "writing to a closed file succeeded");
          CHECK(w->read(b, 4) == 0, "reading a closed file succeeded");
          w->close();
        } else {
          CHECK(w->write("more", 4), "writing to a file that cannot be closed failed");
          want += "more";
        }
      }
    }
    CHECK(fdOpen(fd) == !closable, "the descriptor is %s after dropping a %sclosable file", fdOpen(fd) ? "open" : "closed", closable ? "" : "non-");
    if (!closable) {
      CHECK(fputs("tail", f) >= 0, "a non-closable file was damaged");
      want += "tail";
      CHECK(fclose(f) == 0, "a non-closable file was closed");
    }
    CHECK(slurp(path) == want, "the file has other bytes than were written");
  } else if (how == 1) {
    // Reading.
    auto data = bytes(r, size(r) + r.below(300));
    FILE* f = fopen(path.c_str(), "wb");
    fwrite(data.data(), 1, data.size(), f);
    fclose(f);
    f = fopen(path.c_str(), "rb");
    int fd = fileno(f);
    {
      auto rd = dap::file(f, closable);
      std::string got;
      bool early = r.chance(20);
      while (got.size() < data.size()) {
        size_t ask = 1 + r.below(r.chance(20) ? 10000 : 50);
        std::string s;
        size_t c = guardedRead(rd.get(), &s, ask);
        CHECK(c == std::min(ask, data.size() - got.size()), "reading %zu bytes of a file gave %zu", ask, c);
        got += s;
        CHECK(got == data.substr(0, got.size()), "reading a file gave other bytes than it has");
        if (early && r.chance(20)) {
          break;
        }
        mon::progress();
      }
      if (!early) {
        char b[8];
        CHECK(rd->read(b, 8) == 0, "reading past the end of a file gave bytes");
      }
    }
    CHECK(fdOpen(fd) == !closable, "the descriptor is %s after dropping a %sclosable file", fdOpen(fd) ? "open" : "closed", closable ? "" : "non-");
    if (!closable) {
      fclose(f);
    }
  } else {
    // By path; several threads write whole records.
    if (r.chance(30)) {
      FILE* f = fopen(path.c_str(), "wb");
      fputs("old content that must go", f);
      fclose(f);
    }
    std::map<std::string, int> want;
    {
      auto w = dap::file(path.c_str());
      CHECK(bool(w), "cannot create a file");
      int threads = int(r.range(1, 4)), per = int(r.range(1, 20));
      mon::Threads ts;
      for (int t = 0; t < threads; t++) {
        for (int k = 0; k < per; k++) {
          want[mon::fmt("<%d:%d:%s>", t, k, std::string(size_t(t * 37 + k * 11), char('a' + t)).c_str())]++;
        }
        ts.go([&, t] {
          for (int k = 0; k < per; k++) {
            auto s = mon::fmt("<%d:%d:%s>", t, k, std::string(size_t(t * 37 + k * 11), char('a' + t)).c_str());
            CHECK(w->write(s.data(), s.size()), "write failed");
            mon::progress();
          }
        });
      }
      ts.join();
    }
    auto s = slurp(path);
    size_t p = 0;
    while (p < s.size()) {
      size_t e = s.find('>', p);
      CHECK(e != std::string::npos, "broken record in the file");
      auto rec = s.substr(p, e + 1 - p);
      CHECK(want[rec]-- == 1, "record '%s' is not whole, or written twice", mon::show(rec).c_str());
      p = e + 1;
    }
    for (auto& x : want) {
      CHECK(x.second == 0, "record '%s' is missing", mon::show(x.first).c_str());
    }
    CHECK(!dap::file((mon::opt().tmp + "/no/such/dir/f").c_str()), "a file that cannot be created gave a stream");
  }
  unlink(path.c_str());
  CHECK(mon::numFds() == fds0, "%zu descriptors open, %zu before", mon::numFds(), fds0);
  mon::count(how == 0 ? "files_written" : how == 1 ? "files_read" : "files_by_path");
}

// Reads and writes racing with the close of a file.
void fileClose(uint64_t i, mon::Rng& r) {
  std::string path = mon::opt().tmp + "/c" + std::to_string(i);
  FILE* f = fopen(path.c_str(), "w+b");
  auto w = dap::file(f, true);
  mon::Threads ts;
  mon::Barrier bar(4);
  std::atomic<bool> closed{false};
  std::atomic<uint64_t> ok{0};
  for (int t = 0; t < 2; t++) {
    ts.go([&] {
      bar.arrive();
      for (int k = 0; k < 200; k++) {
        bool was = closed;
        bool res = w->write("0123456789", 10);
        CHECK(!(was && res), "a write after close succeeded");
        ok += res;
      }
    });
  }
  ts.go([&] {
    bar.arrive();
    char b[16];
    for (int k = 0; k < 200; k++) {
      w->read(b, 16);
    }
  });
  bar.arrive();
  mon::jitter(r, 90);
  w->close();
  closed = true;
  CHECK(!w->isOpen(), "open after close");
  ts.join();
  unlink(path.c_str());
  mon::count("file_close_races");
}

void formatted(uint64_t, mon::Rng& r) {
  auto s = std::make_shared<Script>(r.fork());
  s->failPercent = r.chance(20) ? 40 : 0;
  std::string want;
  for (int k = 0; k < 12; k++) {
    static const size_t edge[] = {0, 1, 10, 100, 1023, 1024, 2046, 2047, 2048, 2049, 4096, 10000};
    std::string t(edge[r.below(12)], char('a' + r.below(26)));
    int d = int(int32_t(r.next()));
    std::string exp;
    bool ok;
    switch (r.below(5)) {
      case 4:
        exp = "x" + std::string(1, '\0') + t + std::string(1, '\0');
        ok = dap::writef(s, "x%c%s%c", 0, t.c_str(), 0);
        break;
      case 0:
        exp = t;
        ok = dap::writef(s, "%s", t.c_str());
        break;
      case 1:
        exp = std::to_string(d) + "|" + t + "%";
        ok = dap::writef(s, "%d|%s%%", d, t.c_str());
        break;
      case 2:
        exp = mon::fmt("%08x %s %.3f", unsigned(d), t.c_str(), d / 7.0);
        ok = dap::writef(s, "%08x %s %.3f", unsigned(d), t.c_str(), d / 7.0);
        break;
      default:
        exp = "plain text";
        ok = dap::writef(s, "plain text");
    }
    CHECK(ok == s->lastOk, "formatted writing returned %d, the stream said %d", ok, s->lastOk);
    if (ok) {
      want += exp;
    }
    CHECK(s->taken == want, "formatted writing of %zu bytes wrote something else", exp.size());
  }
  mon::count("formatted_writes", 12);
}

}  // namespace

int main(int argc, char** argv) {
  mon::init(argc, argv, "c22");
  signal(SIGPIPE, SIG_IGN);
  mon::startWatchdog();
  if (mon::opt().tmp.empty()) {
    mon::inconclusive("no scratch directory given");
  }
  mon::cases(100, [](uint64_t i, mon::Rng& r) {
    switch (r.below(9)) {
      case 8: refusingFiles(i, r); break;
      case 0: formatted(i, r); break;
      case 1: fileClose(i, r); break;
      case 2: case 3: case 4: files(i, r); break;
      default: adapters(i, r);
    }
  });
  return mon::finish();
}
