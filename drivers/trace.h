// Trace emission helpers shared by all drivers (ndjson on stdout).
#pragma once
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <functional>

namespace vf {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  template<typename T> const T& of(const std::vector<T>& v) { return v[below(v.size())]; }
};

// One JSON object per line; writes are line-atomic (flushed by the caller's choice).
class Rec {
 public:
  explicit Rec(std::string_view op) { s_ = "{\"op\":\""; s_ += op; s_ += '"'; }
  Rec& str(std::string_view k, std::string_view v) { key(k); quote(v); return *this; }
  Rec& num(std::string_view k, int64_t v) { key(k); s_ += std::to_string(v); return *this; }  // must fit 32 bit
  Rec& boolean(std::string_view k, bool v) { key(k); s_ += v ? "true" : "false"; return *this; }
  // a string as sequence of byte values
  Rec& bytes(std::string_view k, std::string_view v) { key(k); arr(v); return *this; }
  template<typename C> Rec& nums(std::string_view k, const C& c) {
    key(k); s_ += '['; bool f = true;
    for (const auto& x : c) { if (!f) s_ += ','; f = false; s_ += std::to_string((int64_t)x); }
    s_ += ']'; return *this;
  }
  template<typename C> Rec& strs(std::string_view k, const C& c) {
    key(k); s_ += '['; bool f = true;
    for (const auto& x : c) { if (!f) s_ += ','; f = false; quote(x); }
    s_ += ']'; return *this;
  }
  template<typename C> Rec& bytess(std::string_view k, const C& c) {
    key(k); s_ += '['; bool f = true;
    for (const auto& x : c) { if (!f) s_ += ','; f = false; arr(std::string_view(x)); }
    s_ += ']'; return *this;
  }
  // 64-bit word as 4 limbs of 16 bit, least significant first
  Rec& u64(std::string_view k, uint64_t v) {
    key(k); s_ += '[';
    for (int i = 0; i < 4; ++i) { if (i) s_ += ','; s_ += std::to_string((v >> (16 * i)) & 0xFFFF); }
    s_ += ']'; return *this;
  }
  Rec& u32(std::string_view k, uint32_t v) {
    key(k); s_ += '['; s_ += std::to_string(v & 0xFFFF); s_ += ','; s_ += std::to_string(v >> 16); s_ += ']'; return *this;
  }
  Rec& raw(std::string_view k, std::string_view json) { key(k); s_ += json; return *this; }
  void emit() { s_ += "}\n"; fwrite(s_.data(), 1, s_.size(), stdout); }
  std::string take() { return s_ + "}"; }
  static std::string quoted(std::string_view v) { Rec r("x"); r.s_.clear(); r.quote(v); return r.s_; }
  static std::string arrayed(std::string_view v) { Rec r("x"); r.s_.clear(); r.arr(v); return r.s_; }

 private:
  void key(std::string_view k) { s_ += ",\""; s_ += k; s_ += "\":"; }
  void arr(std::string_view v) {
    s_ += '[';
    for (size_t i = 0; i < v.size(); ++i) { if (i) s_ += ','; s_ += std::to_string((unsigned char)v[i]); }
    s_ += ']';
  }
  void quote(std::string_view v) {
    s_ += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s_ += '\\'; s_ += (char)c; }
      else if (c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); s_ += b; }
      else s_ += (char)c;
    }
    s_ += '"';
  }
  std::string s_;
};
inline void Reset(int64_t id) { Rec("reset").num("id", id).emit(); }

inline std::string Pattern(int kind, size_t n, uint64_t seed) {
  std::string s(n, '\0');
  Rng r(seed * 1315423911ULL + kind * 2654435761ULL + n);
  for (size_t i = 0; i < n; ++i) {
    switch (kind) {
      case 0: s[i] = (char)r.next(); break;
      case 1: s[i] = 0; break;
      case 2: s[i] = (char)0xFF; break;
      case 3: s[i] = (char)(i & 0xFF); break;
      case 4: s[i] = (char)0x80; break;
      default: s[i] = "abcdefghijklmnopqrstuvwxyz"[i % 26]; break;
    }
  }
  return s;
}
inline std::string HexOf(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char*)p)[i]; s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
}  // namespace vf
