// Reference model of the message framing, and streams with scripted arrival.
#ifndef VERIF_FRAME_H
#define VERIF_FRAME_H

#include "dap/io.h"
#include "mon.h"

#include <algorithm>
#include <limits>

namespace frame {

inline std::string wrap(const std::string& body) {
  return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
}

struct Msg {
  std::string body;
  size_t end;  // offset just behind the last byte of the message
};

struct Ref {
  std::vector<Msg> msgs;
  bool invalid = false;     // a malformed header was met (close mode only)
  size_t invalidAt = 0;     // offset at which that header starts
  bool truncated = false;   // the stream ends inside of a message or header
};

// The messages of a stream, by direct scanning of the whole stream.
inline Ref reference(const std::string& s, bool closeOnInvalid) {
  static const std::string key = "Content-Length:";
  Ref out;
  size_t p = 0;
  while (true) {
    size_t k;
    if (closeOnInvalid) {
      if (p == s.size()) {
        return out;
      }
      if (s.compare(p, key.size(), key) != 0) {
        if (s.size() - p < key.size()) {
          out.truncated = true;
        } else {
          out.invalid = true;
          out.invalidAt = p;
        }
        return out;
      }
      k = p;
    } else {
      k = s.find(key, p);
      if (k == std::string::npos) {
        return out;
      }
    }
    size_t q = k + key.size();
    while (q < s.size() && (s[q] == ' ' || s[q] == '\t')) {
      q++;
    }
    bool overflow = false;
    size_t len = 0;
    size_t digits = 0;
    while (q < s.size() && s[q] >= '0' && s[q] <= '9') {
      size_t dgt = size_t(s[q] - '0');
      if (len > (std::numeric_limits<size_t>::max() - dgt) / 10) {
        overflow = true;
      } else {
        len = len * 10 + dgt;
      }
      q++;
      digits++;
    }
    bool good = digits > 0 && !overflow && len > 0;
    if (q == s.size() && !overflow) {
      out.truncated = true;
      return out;
    }
    if (good && s.compare(q, 4, "\r\n\r\n") != 0) {
      if (s.size() - q < 4) {
        out.truncated = true;
        if (closeOnInvalid) {
          return out;
        }
      }
      good = false;
    }
    if (!good) {
      if (closeOnInvalid) {
        out.invalid = true;
        out.invalidAt = k;
        return out;
      }
      p = q;
      continue;
    }
    q += 4;
    if (s.size() - q < len) {
      out.truncated = true;
      return out;
    }
    out.msgs.push_back({s.substr(q, len), q + len});
    p = q + len;
  }
}

// A Reader over a fixed stream. The bytes become available in scripted steps
// ("levels"): a further step is only released when a read would otherwise have
// blocked, which lets the monitor see exactly how many bytes had arrived when a
// message was delivered. After the last byte the stream ends.
class ScriptedReader : public dap::Reader {
 public:
  ScriptedReader(std::string s, std::vector<size_t> levels) : data(std::move(s)), levels(std::move(levels)) {}

  bool isOpen() override {
    std::unique_lock<std::mutex> l(m);
    return !closed_;
  }
  void close() override {
    std::unique_lock<std::mutex> l(m);
    if (!closed_) {
      closed_ = true;
      closedByUser = !eofSignalled;
      closedAt = pos;
    }
  }
  size_t read(void* buffer, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    reads++;
    if (closed_) {
      return 0;
    }
    if (n == 0) {
      return 0;
    }
    while (pos == avail) {
      if (next == levels.size()) {
        eofSignalled = true;
        if (closeAtEof) {
          closed_ = true;
        }
        return 0;
      }
      avail = levels[next++];
    }
    size_t c = std::min(n, avail - pos);
    if (maxRead) {
      c = std::min(c, maxRead);
    }
    memcpy(buffer, data.data() + pos, c);
    pos += c;
    return c;
  }
  size_t available() {
    std::unique_lock<std::mutex> l(m);
    return avail;
  }

  const std::string data;
  const std::vector<size_t> levels;
  std::mutex m;
  size_t pos = 0, avail = 0, next = 0;
  size_t maxRead = 0;
  bool closed_ = false, closedByUser = false, eofSignalled = false, closeAtEof = true;
  size_t closedAt = 0;
  size_t reads = 0;
};

// Increasing availability levels covering n bytes. `ends` are interesting
// offsets to cut at.
inline std::vector<size_t> genLevels(mon::Rng& r, size_t n, const std::vector<size_t>& ends, int* kind) {
  std::vector<size_t> out;
  *kind = int(r.below(7));
  auto every = [&](size_t step) {
    for (size_t i = step; i < n; i += step) {
      out.push_back(i);
    }
  };
  switch (*kind) {
    case 0:
      break;  // all at once
    case 1:
      every(n > 20000 ? 97 : 1);
      break;
    case 2: {
      static const std::vector<size_t> steps = {2, 3, 14, 15, 16, 17, 127, 128, 255, 256, 257, 511, 512, 4096};
      size_t s = r.pick(steps);
      every(n / s > 20000 ? n / 20000 + s : s);
      break;
    }
    case 3:
      for (size_t i = 0; (i += 1 + r.below(1 + r.below(600))) < n;) {
        out.push_back(i);
      }
      break;
    case 4:  // cut exactly at message ends
      for (auto e : ends) {
        if (e > 0 && e < n) {
          out.push_back(e);
        }
      }
      break;
    case 5:  // just around message ends
      for (auto e : ends) {
        for (int d = -2; d <= 2; d++) {
          size_t x = e + size_t(int64_t(d));
          if (x > 0 && x < n && r.chance(60)) {
            out.push_back(x);
          }
        }
      }
      break;
    default:
      for (auto e : ends) {
        size_t x = e + r.below(40);
        if (x < n) {
          out.push_back(x);
        }
      }
  }
  if (n) {
    out.push_back(n);
  }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return out;
}

inline std::string genBody(mon::Rng& r, bool big) {
  static const std::vector<size_t> edge = {1, 2, 3, 9, 10, 15, 16, 99, 100, 239, 240, 253, 254, 255, 256, 257, 258, 510, 511, 512, 513, 514,
                                           767, 768, 769, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
  static const std::vector<size_t> huge = {8191, 8192, 8193, 9999, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072};
  size_t n;
  switch (r.below(5)) {
    case 0:
    case 1:
      n = r.pick(edge);
      break;
    case 2:
      n = big && r.chance(20) ? r.pick(huge) : 1 + r.below(600);
      break;
    default:
      n = 1 + r.below(60);
  }
  std::string b;
  b.reserve(n);
  int style = int(r.below(4));
  while (b.size() < n) {
    switch (style) {
      case 0:
        b += char(r.below(256));
        break;
      case 1:
        b += char('a' + r.below(26));
        break;
      case 2: {  // text that looks like framing
        static const std::vector<std::string> t = {"Content-Length:", "Content-Length: 4\r\n\r\n", "\r\n\r\n", "\r\n", " ", "1", "C", "Content-"};
        b += r.pick(t);
        break;
      }
      default:
        b += char(r.chance(50) ? 0 : 0xff);
    }
  }
  b.resize(n);
  return b;
}

inline std::string genHeader(mon::Rng& r, size_t len) {
  std::string h = "Content-Length:";
  switch (r.below(25)) {
    case 0: case 6: case 11: case 16: break;
    case 1: case 7: case 12: case 17: h += "\t"; break;
    case 5:  // many blanks
      for (size_t n = r.chance(70) ? r.below(70) : r.below(3000), i = 0; i < n; i++) {
        h += r.chance(70) ? ' ' : '\t';
      }
      break;
    case 8: case 13: case 18:
    case 2: h += std::string(1 + r.below(5), ' '); break;
    case 3: case 9: case 14: case 19: h += " \t "; break;
    default: h += " ";
  }
  if (r.chance(10)) {
    h += std::string(1 + (r.chance(90) ? r.below(25) : r.below(1500)), '0');
  }
  return h + std::to_string(len) + "\r\n\r\n";
}

// Bytes that are not (wholly) a message.
inline std::string genGarbage(mon::Rng& r, int* kind) {
  static const std::vector<std::string> fixed = {
      "Content-Length", "Content-Length ", "Content-Lengt", "C", "Co", "Content-", "content-length: 5\r\n\r\nhello",
      "CONTENT-LENGTH: 5\r\n\r\n", "Content-Length:", "Content-Length: ", "Content-Length:\r\n\r\n", "Content-Length: \r\n\r\n",
      "Content-Length: 0\r\n\r\n", "Content-Length: 00\r\n\r\n", "Content-Length: -5\r\n\r\nhello", "Content-Length: +5\r\n\r\nhello",
      "Content-Length: 5 \r\n\r\nhello", "Content-Length: 5\n\nhello", "Content-Length: 5\r\nhello", "Content-Length: 5\r\n\rhello",
      "Content-Length: 5\r\n\n\rhello", "Content-Length: 0x5\r\n\r\nhello", "Content-Length: 5.0\r\n\r\nhello", "Content-Length: five\r\n\r\nhello",
      "Content-Length : 5\r\n\r\nhello", "Content-Length:\r\n5\r\n\r\nhello", "Content-Length: 18446744073709551616\r\n\r\nhello",
      "Content-Length: 18446744073709551617\r\n\r\nhello", "Content-Length: 18446744073709551621\r\n\r\nhello", "Content-Length: 99999999999999999999999999\r\n\r\nx",
      "Content-Length: 36893488147419103237\r\n\r\nhello",
      "Content-Length: 5\r\nContent-Type: a\r\n\r\nhello", "\r\n\r\n", "\r\n", "\n", "hello", "{}", "Content-Length: 5Content-Length: 5", "Content-Length:Content-Length:",
      "ContentContent-Length", "Content-LengthContent-Length", "CContent-Length", "Content-Content-Length", "Content-Length:v5\r\n\r\nhello",
      "Content-Length:\v5\r\n\r\nhello", "Content-Length:\f5\r\n\r\nhello", "Content-Length;5\r\n\r\nhello", "Content_Length: 5\r\n\r\nhello", "Content-Length: 1e1\r\n\r\nhello",
      "Content-Length: 5\r\r\n\nhello", "Content-Length: 5,5\r\n\r\nhello"};
  static const std::vector<std::string> nul = {
      std::string("Content-Length:\0" "5\r\n\r\nhello", 26), std::string("Content-Length: 5\0\r\n\r\nhello", 27),
      std::string("Content-Length: \0" "5\r\n\r\nhello", 27), std::string("Content-Length: 1\0" "2\r\n\r\nhello", 28), std::string("\0", 1),
      std::string("Content\0Length: 5\r\n\r\nhello", 26), std::string("Content-Length: 5\r\0\n\r\nhello", 27)};
  *kind = int(r.below(6));
  std::string g;
  switch (*kind) {
    case 0:
    case 1: return r.pick(fixed);
    case 2: return r.pick(nul);
    case 3: {
      size_t n = 1 + r.below(r.chance(20) ? 700 : 30);
      for (size_t i = 0; i < n; i++) g += char(r.below(256));
      return g;
    }
    case 4: {  // a valid header with one byte changed, inserted or removed
      g = "Content-Length: 12\r\n\r\n";
      size_t at = r.below(g.size());
      switch (r.below(3)) {
        case 0: g[at] = char(r.below(256)); break;
        case 1: g.insert(at, 1, char(r.below(256))); break;
        default: g.erase(at, 1);
      }
      return g;
    }
    default: return r.pick(fixed) + r.pick(nul) + r.pick(fixed);
  }
}

}  // namespace frame

#endif
