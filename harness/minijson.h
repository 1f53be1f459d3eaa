// Independent strict JSON reader / writer used as the oracle side of the
// harnesses. Shares nothing with the JSON libraries of the code under test.
#ifndef VERIF_MINIJSON_H
#define VERIF_MINIJSON_H

#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <cmath>
#include <string>
#include <utility>
#include <vector>

#include "mon.h"

namespace mj {

enum Kind { Null, Bool, Int, Double, String, Array, Object };

struct Value {
  Kind kind = Null;
  bool b = false;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<Value> a;                             // Array
  std::vector<std::pair<std::string, Value>> o;     // Object, unique keys

  Value() = default;
  static Value boolean(bool v) { Value x; x.kind = Bool; x.b = v; return x; }
  static Value integer(int64_t v) { Value x; x.kind = Int; x.i = v; return x; }
  static Value number(double v) { Value x; x.kind = Double; x.d = v; return x; }
  static Value string(const std::string& v) { Value x; x.kind = String; x.s = v; return x; }
  static Value array() { Value x; x.kind = Array; return x; }
  static Value object() { Value x; x.kind = Object; return x; }

  const Value* find(const std::string& k) const {
    if (kind != Object) return nullptr;
    for (auto& p : o) {
      if (p.first == k) return &p.second;
    }
    return nullptr;
  }
  Value* find(const std::string& k) { return const_cast<Value*>(static_cast<const Value*>(this)->find(k)); }
  void set(const std::string& k, const Value& v) {
    kind = Object;
    if (auto f = find(k)) {
      *f = v;
    } else {
      o.emplace_back(k, v);
    }
  }
  bool erase(const std::string& k) {
    for (size_t n = 0; n < o.size(); n++) {
      if (o[n].first == k) {
        o.erase(o.begin() + ptrdiff_t(n));
        return true;
      }
    }
    return false;
  }
};

inline bool sameDouble(double x, double y) {
  return memcmp(&x, &y, sizeof(x)) == 0 || (x == 0 && y == 0);
}

// Structural equality; object member order is irrelevant.
inline bool equal(const Value& x, const Value& y, std::string* where = nullptr, const std::string& path = "") {
  auto no = [&](const std::string& w) {
    if (where) *where = (path.empty() ? "/" : path) + ": " + w;
    return false;
  };
  if (x.kind != y.kind) return no(mon::fmt("kind %d vs %d", x.kind, y.kind));
  switch (x.kind) {
    case Null: return true;
    case Bool: return x.b == y.b || no("bool");
    case Int: return x.i == y.i || no(mon::fmt("%lld vs %lld", (long long)x.i, (long long)y.i));
    case Double: return sameDouble(x.d, y.d) || no(mon::fmt("%.17g vs %.17g", x.d, y.d));
    case String: return x.s == y.s || no("'" + mon::show(x.s) + "' vs '" + mon::show(y.s) + "'");
    case Array:
      if (x.a.size() != y.a.size()) return no(mon::fmt("array size %zu vs %zu", x.a.size(), y.a.size()));
      for (size_t i = 0; i < x.a.size(); i++) {
        if (!equal(x.a[i], y.a[i], where, path + "/" + std::to_string(i))) return false;
      }
      return true;
    case Object:
      for (auto& p : x.o) {
        auto f = y.find(p.first);
        if (!f) return no("member '" + mon::show(p.first) + "' missing on the right");
        if (!equal(p.second, *f, where, path + "/" + mon::show(p.first))) return false;
      }
      for (auto& p : y.o) {
        if (!x.find(p.first)) return no("member '" + mon::show(p.first) + "' missing on the left");
      }
      return true;
  }
  return false;
}

// Length of the valid UTF-8 sequence at p, or 0.
inline int utf8len(const unsigned char* p, const unsigned char* e) {
  unsigned c = *p;
  auto cont = [&](int i) { return p + i < e && (p[i] & 0xC0) == 0x80; };
  if (c < 0x80) return 1;
  if (c >= 0xC2 && c <= 0xDF) return cont(1) ? 2 : 0;
  if (c == 0xE0) return cont(1) && p[1] >= 0xA0 && cont(2) ? 3 : 0;
  if (c == 0xED) return cont(1) && p[1] <= 0x9F && cont(2) ? 3 : 0;
  if (c >= 0xE1 && c <= 0xEF) return cont(1) && cont(2) ? 3 : 0;
  if (c == 0xF0) return cont(1) && p[1] >= 0x90 && cont(2) && cont(3) ? 4 : 0;
  if (c >= 0xF1 && c <= 0xF3) return cont(1) && cont(2) && cont(3) ? 4 : 0;
  if (c == 0xF4) return cont(1) && p[1] <= 0x8F && cont(2) && cont(3) ? 4 : 0;
  return 0;
}
inline bool validUtf8(const std::string& s) {
  auto p = reinterpret_cast<const unsigned char*>(s.data()), e = p + s.size();
  while (p < e) {
    int n = utf8len(p, e);
    if (!n) return false;
    p += n;
  }
  return true;
}
inline void appendUtf8(std::string& o, uint32_t c) {
  if (c < 0x80) {
    o += char(c);
  } else if (c < 0x800) {
    o += char(0xC0 | (c >> 6));
    o += char(0x80 | (c & 63));
  } else if (c < 0x10000) {
    o += char(0xE0 | (c >> 12));
    o += char(0x80 | ((c >> 6) & 63));
    o += char(0x80 | (c & 63));
  } else {
    o += char(0xF0 | (c >> 18));
    o += char(0x80 | ((c >> 12) & 63));
    o += char(0x80 | ((c >> 6) & 63));
    o += char(0x80 | (c & 63));
  }
}

class Parser {
 public:
  Parser(const std::string& t) : t(t) {}
  bool parse(Value* out, std::string* err) {
    ws();
    if (!value(out, 0)) {
      if (err) *err = e + mon::fmt(" at offset %zu", p);
      return false;
    }
    ws();
    if (p != t.size()) {
      if (err) *err = mon::fmt("trailing data at offset %zu", p);
      return false;
    }
    return true;
  }

 private:
  const std::string& t;
  size_t p = 0;
  std::string e = "syntax error";
  bool fail(const char* m) {
    e = m;
    return false;
  }
  void ws() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++;
  }
  bool lit(const char* s) {
    size_t n = strlen(s);
    if (t.compare(p, n, s) != 0) return fail("bad literal");
    p += n;
    return true;
  }
  bool hex4(uint32_t* o) {
    if (p + 4 > t.size()) return fail("short escape");
    uint32_t v = 0;
    for (int i = 0; i < 4; i++) {
      char c = t[p++];
      v <<= 4;
      if (c >= '0' && c <= '9') v |= uint32_t(c - '0');
      else if (c >= 'a' && c <= 'f') v |= uint32_t(c - 'a' + 10);
      else if (c >= 'A' && c <= 'F') v |= uint32_t(c - 'A' + 10);
      else return fail("bad escape");
    }
    *o = v;
    return true;
  }
  bool str(std::string* o) {
    if (p >= t.size() || t[p] != '"') return fail("string expected");
    p++;
    while (true) {
      if (p >= t.size()) return fail("unterminated string");
      unsigned char c = (unsigned char)t[p];
      if (c == '"') {
        p++;
        return true;
      }
      if (c < 0x20) return fail("raw control character in string");
      if (c == '\\') {
        p++;
        if (p >= t.size()) return fail("unterminated escape");
        char x = t[p++];
        switch (x) {
          case '"': *o += '"'; break;
          case '\\': *o += '\\'; break;
          case '/': *o += '/'; break;
          case 'b': *o += '\b'; break;
          case 'f': *o += '\f'; break;
          case 'n': *o += '\n'; break;
          case 'r': *o += '\r'; break;
          case 't': *o += '\t'; break;
          case 'u': {
            uint32_t u;
            if (!hex4(&u)) return false;
            if (u >= 0xDC00 && u < 0xE000) return fail("lone low surrogate");
            if (u >= 0xD800 && u < 0xDC00) {
              if (p + 2 > t.size() || t[p] != '\\' || t[p + 1] != 'u') return fail("lone surrogate");
              p += 2;
              uint32_t l;
              if (!hex4(&l)) return false;
              if (l < 0xDC00 || l >= 0xE000) return fail("bad surrogate");
              u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            }
            appendUtf8(*o, u);
            break;
          }
          default: return fail("bad escape");
        }
        continue;
      }
      auto b = reinterpret_cast<const unsigned char*>(t.data());
      int n = utf8len(b + p, b + t.size());
      if (!n) return fail("invalid UTF-8");
      o->append(t, p, size_t(n));
      p += size_t(n);
    }
  }
  bool num(Value* o) {
    size_t b = p;
    bool real = false;
    if (p < t.size() && t[p] == '-') p++;
    if (p >= t.size() || !isdigit((unsigned char)t[p])) return fail("bad number");
    if (t[p] == '0') {
      p++;
    } else {
      while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    }
    if (p < t.size() && t[p] == '.') {
      real = true;
      p++;
      if (p >= t.size() || !isdigit((unsigned char)t[p])) return fail("bad fraction");
      while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      real = true;
      p++;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
      if (p >= t.size() || !isdigit((unsigned char)t[p])) return fail("bad exponent");
      while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    }
    std::string x = t.substr(b, p - b);
    if (!real) {
      errno = 0;
      char* end;
      long long v = strtoll(x.c_str(), &end, 10);
      if (errno == 0) {
        *o = Value::integer(v);
        return true;
      }
    }
    *o = Value::number(strtod(x.c_str(), nullptr));
    return true;
  }
  bool value(Value* o, int depth) {
    if (depth > 2000) return fail("too deep");
    if (p >= t.size()) return fail("unexpected end");
    switch (t[p]) {
      case 'n': *o = Value(); return lit("null");
      case 't': *o = Value::boolean(true); return lit("true");
      case 'f': *o = Value::boolean(false); return lit("false");
      case '"': *o = Value::string(""); return str(&o->s);
      case '[': {
        *o = Value::array();
        p++;
        ws();
        if (p < t.size() && t[p] == ']') {
          p++;
          return true;
        }
        while (true) {
          o->a.emplace_back();
          ws();
          if (!value(&o->a.back(), depth + 1)) return false;
          ws();
          if (p >= t.size()) return fail("unterminated array");
          if (t[p] == ',') {
            p++;
            continue;
          }
          if (t[p] == ']') {
            p++;
            return true;
          }
          return fail("bad array");
        }
      }
      case '{': {
        *o = Value::object();
        p++;
        ws();
        if (p < t.size() && t[p] == '}') {
          p++;
          return true;
        }
        while (true) {
          ws();
          std::string k;
          if (!str(&k)) return false;
          if (o->find(k)) return fail("duplicate key");
          ws();
          if (p >= t.size() || t[p] != ':') return fail("':' expected");
          p++;
          ws();
          o->o.emplace_back(k, Value());
          if (!value(&o->o.back().second, depth + 1)) return false;
          ws();
          if (p >= t.size()) return fail("unterminated object");
          if (t[p] == ',') {
            p++;
            continue;
          }
          if (t[p] == '}') {
            p++;
            return true;
          }
          return fail("bad object");
        }
      }
      default: return num(o);
    }
  }
};

inline bool parse(const std::string& text, Value* out, std::string* err = nullptr) {
  return Parser(text).parse(out, err);
}

// Writes v. With rng, varies white space, escapes and member order.
inline void quote(std::string& o, const std::string& s, mon::Rng* r) {
  o += '"';
  auto b = reinterpret_cast<const unsigned char*>(s.data()), e = b + s.size();
  for (auto p = b; p < e;) {
    unsigned char c = *p;
    if (c == '"') {
      o += "\\\"";
      p++;
    } else if (c == '\\') {
      o += "\\\\";
      p++;
    } else if (c < 0x20) {
      char x[8];
      if (c == '\n' && r && r->chance(50)) {
        o += "\\n";
      } else {
        snprintf(x, sizeof x, "\\u%04x", c);
        o += x;
      }
      p++;
    } else {
      int n = utf8len(p, e);
      if (n == 0) n = 1;
      if (n == 1 && r && r->chance(3)) {
        char x[8];
        snprintf(x, sizeof x, "\\u%04X", c);
        o += x;
      } else {
        o.append(reinterpret_cast<const char*>(p), size_t(n));
      }
      p += n;
    }
  }
  o += '"';
}

inline std::string num(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  std::string s = b;
  if (s.find_first_of(".eEn") == std::string::npos) s += ".0";
  return s;
}

inline void write(std::string& o, const Value& v, mon::Rng* r) {
  auto sp = [&] {
    if (r && r->chance(10)) {
      static const char* w[] = {" ", "\n", "\t", "  ", "\r\n"};
      o += w[r->below(5)];
    }
  };
  sp();
  switch (v.kind) {
    case Null: o += "null"; break;
    case Bool: o += v.b ? "true" : "false"; break;
    case Int: o += std::to_string(v.i); break;
    case Double: o += num(v.d); break;
    case String: quote(o, v.s, r); break;
    case Array: {
      o += '[';
      for (size_t i = 0; i < v.a.size(); i++) {
        if (i) o += ',';
        write(o, v.a[i], r);
      }
      sp();
      o += ']';
      break;
    }
    case Object: {
      o += '{';
      std::vector<size_t> idx(v.o.size());
      for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
      if (r && r->chance(50)) r->shuffle(idx);
      for (size_t i = 0; i < idx.size(); i++) {
        if (i) o += ',';
        sp();
        quote(o, v.o[idx[i]].first, nullptr);
        sp();
        o += ':';
        write(o, v.o[idx[i]].second, r);
      }
      sp();
      o += '}';
      break;
    }
  }
  sp();
}
inline std::string text(const Value& v, mon::Rng* r = nullptr) {
  std::string o;
  write(o, v, r);
  return o;
}

// ------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------
inline std::string genString(mon::Rng& r, bool allowNul = true) {
  static const std::vector<std::string> special = {
      "", "a", "%s%n%d", "\"", "\\", "/", "\b\f\n\r\t", "\x01\x1f\x7f", "Content-Length: 5\r\n\r\n{}",
      "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf",
      "{\"a\":1}", "null", "true", "1", "'", "\xed\x9f\xbf", "\xee\x80\x80", "\xc2\x80", "\xdf\xbf",
      "\xe2\x80\xa8", "\xef\xbb\xbf" "bom", "</script>", "//c", "/*c*/"};
  std::string s;
  switch (r.below(8)) {
    case 0: return r.pick(special);
    case 1: {
      static const std::vector<size_t> lens = {1, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 1023, 4096};
      size_t n = r.pick(lens);
      for (size_t i = 0; i < n; i++) s += char('a' + r.below(26));
      return s;
    }
    case 2: {
      if (allowNul) {
        s = "x";
        s += '\0';
        s += "y";
        if (r.chance(30)) s += '\0';
        return s;
      }
      return "no-nul";
    }
    case 3: {
      size_t n = r.below(12);
      for (size_t i = 0; i < n; i++) {
        uint32_t c;
        do {
          static const std::vector<uint32_t> lim = {0x80, 0x800, 0x10000, 0x110000};
          c = uint32_t(r.below(r.pick(lim)));
        } while ((c >= 0xD800 && c < 0xE000) || (c == 0 && !allowNul));
        appendUtf8(s, c);
      }
      return s;
    }
    case 4: return r.pick(special) + r.pick(special);
    default: {
      size_t n = r.below(20);
      for (size_t i = 0; i < n; i++) s += char(32 + r.below(95));
      return s;
    }
  }
}
inline int64_t genInt(mon::Rng& r) {
  static const std::vector<int64_t> special = {
      0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536,
      INT32_MAX, INT32_MIN, int64_t(INT32_MAX) + 1, int64_t(INT32_MIN) - 1, int64_t(UINT32_MAX), int64_t(UINT32_MAX) + 1,
      (1ll << 53), (1ll << 53) + 1, -(1ll << 53) - 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
  switch (r.below(4)) {
    case 0: return r.pick(special);
    case 1: return int64_t(r.next());
    case 2: return int64_t(r.next() >> r.below(64)) * (r.chance(50) ? 1 : -1);
    default: return r.range(-1000, 1000);
  }
}
inline double genDouble(mon::Rng& r) {
  static const std::vector<double> special = {
      0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1.5e300, -1e-300, 5e-324, 2.2250738585072014e-308,
      2.225073858507201e-308, 1.7976931348623157e308, 123456789.123456789, 3.141592653589793, 9007199254740993.0, 4.35, 0.000001,
      1e-7, 100000, 1e6, 1e20, -0.75, 2147483648.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0};
  switch (r.below(4)) {
    case 0: return r.pick(special);
    case 1: {
      while (true) {
        uint64_t x = r.next();
        double d;
        memcpy(&d, &x, 8);
        if (std::isfinite(d)) return d;
      }
    }
    case 2: return double(r.range(-100000, 100000)) / 1000.0;
    default: return double(r.next() >> 11) / double(1ull << r.below(53));
  }
}
inline std::string genKey(mon::Rng& r, bool allowNul = true) {
  static const std::vector<std::string> k = {"a", "b", "c", "name", "id", "value", "type", "seq", "", "0", "$ref", "x y", "\xc3\xa9", "a/b", "a.b", "A"};
  return r.chance(60) ? r.pick(k) : genString(r, allowNul);
}
inline Value genValue(mon::Rng& r, int depth, bool allowNul = true) {
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: return Value();
    case 1: return Value::boolean(r.chance(50));
    case 2: return Value::integer(genInt(r));
    case 3: return Value::number(genDouble(r));
    case 4:
    case 5: return Value::string(genString(r, allowNul));
    case 6: {
      auto v = Value::array();
      size_t n = r.below(6);
      for (size_t i = 0; i < n; i++) v.a.push_back(genValue(r, depth - 1, allowNul));
      return v;
    }
    default: {
      auto v = Value::object();
      size_t n = r.below(6);
      for (size_t i = 0; i < n; i++) v.set(genKey(r, allowNul), genValue(r, depth - 1, allowNul));
      return v;
    }
  }
}

}  // namespace mj

#endif
