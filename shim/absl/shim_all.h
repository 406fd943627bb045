// Stand-in for the parts of Abseil the repository uses. The sandbox has no Abseil the repository
// could be built against (the system one lacks absl/log and has its own string_view), so the
// checks compile the repository's code against this one. Only documented behaviour is provided.
#pragma once
#include <unistd.h>
#include <algorithm>
#include <any>
#include <array>
#include <cctype>
#include <charconv>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <ostream>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

// ---------------------------------------------------------------- attributes
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_CONST_INIT constinit
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NORETURN __attribute__((noreturn))
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof(*(a)))
#define ABSL_NAMESPACE_BEGIN
#define ABSL_NAMESPACE_END
#define ABSL_DEPRECATED(x)
#define ABSL_INTERNAL_NEED_REDUNDANT_CONSTEXPR_DECL 0

namespace absl {
using std::string_view;
using std::optional; using std::nullopt; using std::variant; using std::any; using std::in_place; using std::make_optional;
using std::get; using std::visit; using std::holds_alternative; using std::get_if; using std::make_unique;
inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }
inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) { return s.substr(std::min(pos, s.size()), n); }

// --------------------------------------------------------------- AbslStringify
namespace strings_internal {
struct StringSink {
  std::string* out;
  void Append(size_t n, char c) { out->append(n, c); }
  void Append(string_view s) { out->append(s.data(), s.size()); }
  bool PutPaddedString(string_view v, int width, int precision, bool left) {
    if (precision >= 0) v = v.substr(0, precision);
    const size_t pad = width > (int)v.size() ? width - v.size() : 0;
    if (!left) out->append(pad, ' ');
    out->append(v);
    if (left) out->append(pad, ' ');
    return true;
  }
  friend void AbslFormatFlush(StringSink* s, string_view v) { s->Append(v); }
};
struct UnimplementedSink {
  void Append(size_t, char);
  void Append(string_view);
  bool PutPaddedString(string_view, int, int, bool);
  friend void AbslFormatFlush(UnimplementedSink*, string_view);
};
}  // namespace strings_internal
template<typename T, typename = void> struct HasAbslStringify : std::false_type {};
template<typename T>
struct HasAbslStringify<T, std::enable_if_t<std::is_void_v<decltype(AbslStringify(std::declval<strings_internal::UnimplementedSink&>(), std::declval<const T&>()))>>> : std::true_type {};

// ------------------------------------------------------------- number parsing
inline bool ascii_isalpha(unsigned char c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? (char)(c + 32) : (char)c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? (char)(c - 32) : (char)c; }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); for (char& c : r) c = ascii_tolower(c); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); for (char& c : r) c = ascii_toupper(c); return r; }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower(c); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper(c); }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(string_view(*s))); }
// leading and trailing whitespace goes; each inner run keeps only its last whitespace character
inline void RemoveExtraAsciiWhitespace(std::string* str) {
  const string_view s = StripAsciiWhitespace(string_view(*str));
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (ascii_isspace(s[i]) && i + 1 < s.size() && ascii_isspace(s[i + 1])) continue;
    r += s[i];
  }
  *str = r;
}
template<typename Int> bool SimpleAtoi(string_view s, Int* out) {
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) { *out = 0; return false; }
  if (neg && std::is_unsigned_v<Int>) { *out = 0; return false; }
  __int128 v = 0;
  for (char c : s) {
    if (!ascii_isdigit(c)) { *out = (Int)(neg ? -v : v); return false; }
    v = v * 10 + (c - '0');
    if ((neg ? -v : v) > (__int128)std::numeric_limits<Int>::max()) { *out = std::numeric_limits<Int>::max(); return false; }
    if ((neg ? -v : v) < (__int128)std::numeric_limits<Int>::min()) { *out = std::numeric_limits<Int>::min(); return false; }
  }
  *out = (Int)(neg ? -v : v);
  return true;
}
inline bool SimpleAtod(string_view s, double* out) { const std::string t(StripAsciiWhitespace(s)); char* e; *out = strtod(t.c_str(), &e); return !t.empty() && *e == 0; }
inline bool SimpleAtof(string_view s, float* out) { double d; const bool r = SimpleAtod(s, &d); *out = (float)d; return r; }
inline bool EqualsIgnoreCase(string_view a, string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
inline bool SimpleAtob(string_view s, bool* out) {
  for (auto t : {"true", "t", "yes", "y", "1"}) if (EqualsIgnoreCase(s, t)) { *out = true; return true; }
  for (auto t : {"false", "f", "no", "n", "0"}) if (EqualsIgnoreCase(s, t)) { *out = false; return true; }
  return false;
}
inline bool SimpleHexAtoi(string_view s, uint64_t* out) { const std::string t(s); char* e; *out = strtoull(t.c_str(), &e, 16); return !t.empty() && *e == 0; }

// ------------------------------------------------------------------- matching
inline bool StrContains(string_view h, string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(string_view h, char c) { return h.find(c) != h.npos; }
inline bool StartsWith(string_view t, string_view p) { return t.starts_with(p); }
inline bool EndsWith(string_view t, string_view p) { return t.ends_with(p); }
inline bool StrContainsIgnoreCase(string_view h, string_view n) { return StrContains(AsciiStrToLower(h), AsciiStrToLower(n)); }
inline bool StartsWithIgnoreCase(string_view t, string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(string_view t, string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
inline bool ConsumePrefix(string_view* s, string_view p) { if (!s->starts_with(p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!s->ends_with(p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { ConsumePrefix(&s, p); return s; }
inline string_view StripSuffix(string_view s, string_view p) { ConsumeSuffix(&s, p); return s; }

// --------------------------------------------------------------------- StrCat
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex { uint64_t v; int w; template<typename I> explicit Hex(I i, PadSpec p = kNoPad) : v((uint64_t)(std::make_unsigned_t<I>)i), w((int)p) {} };
struct Dec { int64_t v; int w; template<typename I> explicit Dec(I i, PadSpec p = kNoPad) : v((int64_t)i), w((int)p) {} };
inline std::string SixDigitsStr(double d) { char b[64]; snprintf(b, sizeof b, "%.6g", d); return b; }
inline std::string SixDigits(double d) { return SixDigitsStr(d); }
class AlphaNum {
 public:
  AlphaNum(string_view s) : s_(s) {}
  AlphaNum(const char* s) : s_(NullSafeStringView(s)) {}
  AlphaNum(const std::string& s) : s_(s) {}
  AlphaNum(Hex h) { char b[40]; snprintf(b, sizeof b, "%0*llx", h.w, (unsigned long long)h.v); s_ = b; }
  AlphaNum(Dec h) { char b[40]; snprintf(b, sizeof b, "%0*lld", h.w, (long long)h.v); s_ = b; }
  template<typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, char>) AlphaNum(T v) : s_(std::to_string(v)) {}
  template<typename T> requires(std::is_floating_point_v<T>) AlphaNum(T v) : s_(SixDigitsStr((double)v)) {}
  template<typename T> requires(std::is_enum_v<T> && std::is_convertible_v<T, int> && !HasAbslStringify<T>::value) AlphaNum(T v) : s_(std::to_string((std::underlying_type_t<T>)v)) {}
  template<typename T> requires(HasAbslStringify<T>::value) AlphaNum(const T& v) { strings_internal::StringSink k{&s_}; AbslStringify(k, v); }
  AlphaNum(char) = delete;
  AlphaNum(const AlphaNum&) = delete;
  string_view Piece() const { return s_; }
 private:
  std::string s_;
};
inline std::string StrCat() { return {}; }
template<typename... A> [[nodiscard]] std::string StrCat(const A&... a) { std::string r; ((r += AlphaNum(a).Piece()), ...); return r; }
template<typename... A> void StrAppend(std::string* d, const A&... a) { std::string r; ((r += AlphaNum(a).Piece()), ...); d->append(r); }

// -------------------------------------------------------------------- StrJoin
struct AlphaNumFormatterImpl { template<typename T> void operator()(std::string* out, const T& v) const { out->append(AlphaNum(v).Piece()); } };
struct DefaultFormatter {
  template<typename T> void operator()(std::string* out, const T& v) const {
    if constexpr (requires { AlphaNum(v); }) out->append(AlphaNum(v).Piece()); else (*this)(out, *v);
  }
};
inline DefaultFormatter AlphaNumFormatter() { return {}; }
template<typename F1, typename F2> auto PairFormatterImpl(F1 a, std::string s, F2 b) { return [=](std::string* o, const auto& p) mutable { a(o, p.first); o->append(s); b(o, p.second); }; }
inline auto PairFormatter(string_view s) { return PairFormatterImpl(DefaultFormatter{}, std::string(s), DefaultFormatter{}); }
template<typename F1, typename F2> auto PairFormatter(F1 a, string_view s, F2 b) { return PairFormatterImpl(a, std::string(s), b); }
inline auto StreamFormatter() { return [](std::string* o, const auto& v) { std::ostringstream s; s << v; *o += s.str(); }; }
template<typename It, typename F> requires(!std::is_convertible_v<F, string_view>)
std::string StrJoin(It b, It e, string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r += sep; first = false; f(&r, *b); } return r; }
template<typename It> std::string StrJoin(It b, It e, string_view sep) { return StrJoin(b, e, sep, DefaultFormatter{}); }
template<typename R, typename F> requires(requires(R& r) { std::begin(r); } || requires(R& r) { r.begin(); })
std::string StrJoin(R&& range, string_view sep, F&& f) { std::string r; bool first = true; for (auto&& v : range) { if (!first) r += sep; first = false; f(&r, v); } return r; }
template<typename R> requires(requires(R& r) { std::begin(r); } || requires(R& r) { r.begin(); })
std::string StrJoin(R&& range, string_view sep) { return StrJoin(range, sep, DefaultFormatter{}); }
template<typename T> std::string StrJoin(std::initializer_list<T> l, string_view sep) { return StrJoin(l.begin(), l.end(), sep, DefaultFormatter{}); }
template<typename T, typename F> std::string StrJoin(std::initializer_list<T> l, string_view sep, F&& f) { return StrJoin(l.begin(), l.end(), sep, f); }
template<typename... T> std::string StrJoin(const std::tuple<T...>& t, string_view sep) {
  std::string r; bool first = true;
  std::apply([&](const auto&... v) { ((first ? void() : void(r += sep), first = false, DefaultFormatter{}(&r, v)), ...); }, t);
  return r;
}

// ------------------------------------------------------------------- StrSplit
class ByString {
 public:
  explicit ByString(string_view s) : d_(s) {}
  string_view Find(string_view text, size_t pos) const {
    if (d_.empty() && !text.empty()) return string_view(text.data() + std::min(pos + 1, text.size()), 0);
    const size_t f = text.find(d_, pos);
    return f == text.npos ? string_view(text.data() + text.size(), 0) : string_view(text.data() + f, d_.size());
  }
 private:
  std::string d_;
};
class ByChar {
 public:
  explicit ByChar(char c) : c_(c) {}
  string_view Find(string_view text, size_t pos) const {
    const size_t f = text.find(c_, pos);
    return f == text.npos ? string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
 private:
  char c_;
};
class ByAnyChar {
 public:
  explicit ByAnyChar(string_view s) : d_(s) {}
  string_view Find(string_view text, size_t pos) const {
    if (d_.empty() && !text.empty()) return string_view(text.data() + std::min(pos + 1, text.size()), 0);
    const size_t f = text.find_first_of(d_, pos);
    return f == text.npos ? string_view(text.data() + text.size(), 0) : text.substr(f, 1);
  }
 private:
  std::string d_;
};
class ByLength {
 public:
  explicit ByLength(ptrdiff_t n) : n_(n) {}
  string_view Find(string_view text, size_t pos) const {
    pos = std::min(pos, text.size());
    const string_view s = text.substr(pos);
    return s.size() <= (size_t)n_ ? string_view(text.data() + text.size(), 0) : string_view(s.data() + n_, 0);
  }
 private:
  ptrdiff_t n_;
};
using ByAsciiWhitespace = ByAnyChar;
namespace strings_internal {
template<typename D> struct SelectDelimiter { using type = D; static type Make(D d) { return d; } };
template<> struct SelectDelimiter<char> { using type = ByChar; static type Make(char c) { return ByChar(c); } };
template<> struct SelectDelimiter<const char*> { using type = ByString; static type Make(const char* c) { return ByString(c); } };
template<> struct SelectDelimiter<char*> : SelectDelimiter<const char*> {};
template<> struct SelectDelimiter<string_view> { using type = ByString; static type Make(string_view c) { return ByString(c); } };
template<> struct SelectDelimiter<std::string> { using type = ByString; static type Make(string_view c) { return ByString(c); } };
template<typename D> class MaxSplitsImpl {
 public:
  MaxSplitsImpl(D d, int limit) : d_(d), limit_(limit) {}
  string_view Find(string_view text, size_t pos) { return count_++ == limit_ ? string_view(text.data() + text.size(), 0) : d_.Find(text, pos); }
 private:
  D d_; int limit_; int count_ = 0;
};
}  // namespace strings_internal
template<typename D> auto MaxSplits(D d, int limit) {
  using S = strings_internal::SelectDelimiter<D>;
  return strings_internal::MaxSplitsImpl<typename S::type>(S::Make(d), limit);
}
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace strings_internal {
template<typename D, typename P> class Splitter {
 public:
  Splitter(string_view view, std::shared_ptr<std::string> own, D d, P p) : own_(std::move(own)), text_(own_ ? string_view(*own_) : view), d_(std::move(d)), p_(std::move(p)) {}
  std::vector<string_view> Pieces() const {
    std::vector<string_view> r;
    if (text_.data() == nullptr) return r;
    D d = d_; P p = p_;
    size_t pos = 0;
    for (bool last = false; !last;) {
      const string_view f = d.Find(text_, pos);
      if (f.data() == text_.data() + text_.size()) last = true;
      const string_view cur = text_.substr(pos, (size_t)(f.data() - (text_.data() + pos)));
      pos += cur.size() + f.size();
      if (p(cur)) r.push_back(cur);
    }
    return r;
  }
  auto begin() const { if (!cache_) cache_ = std::make_shared<std::vector<string_view>>(Pieces()); return cache_->cbegin(); }
  auto end() const { begin(); return cache_->cend(); }
  template<typename A, typename B> operator std::pair<A, B>() const {
    const auto v = Pieces();
    return std::pair<A, B>(v.size() > 0 ? A(v[0]) : A(), v.size() > 1 ? B(v[1]) : B());
  }
  template<typename T, size_t N> operator std::array<T, N>() const { const auto v = Pieces(); std::array<T, N> r{}; for (size_t i = 0; i < N && i < v.size(); ++i) r[i] = T(v[i]); return r; }
  template<typename C> requires(!requires { typename C::mapped_type; } && requires(C c, typename C::value_type v) { c.insert(c.end(), v); }
                                && std::is_constructible_v<typename C::value_type, string_view>)
  operator C() const { C c; for (auto v : Pieces()) c.insert(c.end(), typename C::value_type(v)); return c; }
  template<typename C> requires(requires { typename C::mapped_type; })
  operator C() const {
    C c; const auto v = Pieces();
    for (size_t i = 0; i < v.size(); i += 2) c.emplace(typename C::key_type(v[i]), i + 1 < v.size() ? typename C::mapped_type(v[i + 1]) : typename C::mapped_type());
    return c;
  }
 private:
  std::shared_ptr<std::string> own_; string_view text_; D d_; P p_;
  mutable std::shared_ptr<std::vector<string_view>> cache_;
};
}  // namespace strings_internal
template<typename T, typename D, typename P> auto StrSplit(T&& text, D d, P p) {
  using S = strings_internal::SelectDelimiter<D>;
  std::shared_ptr<std::string> own;
  string_view view;
  if constexpr (std::is_same_v<T, std::string>) own = std::make_shared<std::string>(std::move(text)); else view = string_view(text);
  return strings_internal::Splitter<typename S::type, P>(view, own, S::Make(std::move(d)), std::move(p));
}
template<typename T, typename D> auto StrSplit(T&& text, D d) { return StrSplit(std::forward<T>(text), std::move(d), AllowEmpty()); }

// -------------------------------------------------------------- StrReplaceAll
inline int StrReplaceAllImpl(string_view s, const std::vector<std::pair<std::string, std::string>>& reps, std::string* out) {
  int n = 0;
  for (size_t i = 0; i < s.size();) {
    const std::pair<std::string, std::string>* best = nullptr;
    for (const auto& r : reps) if (!r.first.empty() && s.substr(i).starts_with(r.first) && (!best || best->first.size() < r.first.size())) best = &r;
    if (best) { *out += best->second; i += best->first.size(); ++n; } else *out += s[i++];
  }
  return n;
}
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> reps) {
  std::vector<std::pair<std::string, std::string>> v; for (auto& r : reps) v.emplace_back(std::string(r.first), std::string(r.second));
  std::string o; StrReplaceAllImpl(s, v, &o); return o;
}
template<typename R> requires(!std::is_convertible_v<R, string_view>) std::string StrReplaceAll(string_view s, const R& reps) {
  std::vector<std::pair<std::string, std::string>> v; for (auto& [a, b] : reps) v.emplace_back(std::string(a), std::string(b));
  std::string o; StrReplaceAllImpl(s, v, &o); return o;
}
inline int StrReplaceAll(std::initializer_list<std::pair<string_view, string_view>> reps, std::string* t) {
  std::vector<std::pair<std::string, std::string>> v; for (auto& r : reps) v.emplace_back(std::string(r.first), std::string(r.second));
  std::string o; const int n = StrReplaceAllImpl(*t, v, &o); *t = o; return n;
}

// ------------------------------------------------------------------- escaping
inline std::string CEscapeImpl(string_view s, bool hex, bool utf8) {
  std::string r; bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if ((!utf8 || c < 0x80) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) {
          char b[8]; snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c); r += b; is_hex = hex;
        } else r += (char)c;
    }
    last_hex = is_hex;
  }
  return r;
}
inline std::string CEscape(string_view s) { return CEscapeImpl(s, false, false); }
inline std::string CHexEscape(string_view s) { return CEscapeImpl(s, true, false); }
inline std::string Utf8SafeCEscape(string_view s) { return CEscapeImpl(s, false, true); }
inline std::string Utf8SafeCHexEscape(string_view s) { return CEscapeImpl(s, true, true); }
inline std::string BytesToHexString(string_view s) { std::string r; for (unsigned char c : s) { char b[4]; snprintf(b, sizeof b, "%02x", c); r += b; } return r; }

// ------------------------------------------------------------------ StrFormat
namespace str_format_internal {
struct Spec { bool left = false, plus = false, space = false, alt = false, zero = false; int width = -1, prec = -1; char conv = 'v'; };
inline void Pad(std::string& out, string_view v, const Spec& s) {
  const size_t pad = s.width > (int)v.size() ? s.width - v.size() : 0;
  if (!s.left) out.append(pad, ' ');
  out.append(v);
  if (s.left) out.append(pad, ' ');
}
struct Arg {
  std::function<void(std::string&, Spec)> put;
  std::optional<long long> as_int;
};
template<typename T> void PutNum(std::string& out, const Spec& s, const char* len, T v) {
  std::string f = "%";
  if (s.left) f += '-';
  if (s.plus) f += '+';
  if (s.space) f += ' ';
  if (s.alt) f += '#';
  if (s.zero) f += '0';
  if (s.width >= 0) f += std::to_string(s.width);
  if (s.prec >= 0) f += "." + std::to_string(s.prec);
  f += len; f += s.conv;
  const int n = snprintf(nullptr, 0, f.c_str(), v);
  std::string b(n + 1, 0);
  snprintf(b.data(), b.size(), f.c_str(), v);
  b.resize(n);
  out += b;
}
template<typename T> Arg MakeArg(const T& v) {
  Arg a;
  using V = std::remove_cvref_t<T>;
  if constexpr (HasAbslStringify<V>::value) {
    a.put = [&v](std::string& o, Spec s) { std::string t; strings_internal::StringSink k{&t}; AbslStringify(k, v); Pad(o, s.prec >= 0 ? t.substr(0, s.prec) : t, s); };
  } else if constexpr (std::is_same_v<V, bool>) {
    a.put = [v](std::string& o, Spec s) { if (s.conv == 'v' || s.conv == 's') Pad(o, v ? "true" : "false", s); else PutNum(o, s, "", (int)v); };
  } else if constexpr (std::is_integral_v<V>) {
    a.as_int = (long long)v;
    a.put = [v](std::string& o, Spec s) {
      if (s.conv == 'c' || (s.conv == 'v' && std::is_same_v<V, char>)) { s.conv = 'c'; char c = (char)v; return Pad(o, string_view(&c, 1), s); }
      if (s.conv == 'v' || s.conv == 'i') s.conv = 'd';
      if (strchr("eEfFgGaA", s.conv)) return PutNum(o, s, "", (double)v);
      if (s.conv == 'd' && std::is_unsigned_v<V>) s.conv = 'u';
      if (s.conv == 'u' || s.conv == 'x' || s.conv == 'X' || s.conv == 'o') PutNum(o, s, "ll", (unsigned long long)(std::make_unsigned_t<V>)v);
      else PutNum(o, s, "ll", (long long)v);
    };
  } else if constexpr (std::is_floating_point_v<V>) {
    a.put = [v](std::string& o, Spec s) { if (s.conv == 'v') s.conv = 'g'; PutNum(o, s, "", (double)v); };
  } else if constexpr (std::is_same_v<V, const char*> || std::is_same_v<V, char*> || std::is_array_v<V>) {
    a.put = [v = NullSafeStringView(v)](std::string& o, Spec s) {
      if (s.conv == 'p') { char b[32]; snprintf(b, sizeof b, "%p", (const void*)v.data()); return Pad(o, b, s); }
      Pad(o, s.prec >= 0 ? v.substr(0, s.prec) : v, s); };
  } else if constexpr (std::is_convertible_v<const V&, string_view>) {
    a.put = [v = string_view(v)](std::string& o, Spec s) { Pad(o, s.prec >= 0 ? v.substr(0, s.prec) : v, s); };
  } else if constexpr (std::is_enum_v<V>) {
    return MakeArg((std::underlying_type_t<V>)v);
  } else if constexpr (std::is_pointer_v<V>) {
    a.put = [v](std::string& o, Spec s) { char b[32]; if (v) snprintf(b, sizeof b, "%p", (const void*)v); else snprintf(b, sizeof b, "(nil)"); Pad(o, b, s); };
  } else if constexpr (std::is_convertible_v<const V&, std::string>) {
    a.put = [v = std::string(v)](std::string& o, Spec s) { Pad(o, s.prec >= 0 ? v.substr(0, s.prec) : v, s); };
  } else {
    a.put = [&v](std::string& o, Spec s) { std::ostringstream t; t << v; Pad(o, t.str(), s); };
  }
  return a;
}
inline std::string FormatPack(string_view f, const std::vector<Arg>& args) {
  std::string out;
  size_t next = 0;
  auto bad = [] { std::cerr << "bad format\n"; abort(); };
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { out += f[i++]; continue; }
    if (++i >= f.size()) bad();
    if (f[i] == '%') { out += '%'; ++i; continue; }
    Spec s;
    size_t pos = 0;
    { size_t j = i; int n = 0; while (j < f.size() && ascii_isdigit(f[j])) n = n * 10 + f[j++] - '0'; if (j < f.size() && j > i && f[j] == '$') { pos = n; i = j + 1; } }
    for (bool more = true; more && i < f.size();) {
      switch (f[i]) { case '-': s.left = true; break; case '+': s.plus = true; break; case ' ': s.space = true; break; case '#': s.alt = true; break; case '0': s.zero = true; break; default: more = false; }
      if (more) ++i;
    }
    auto number = [&]() -> int {
      if (i < f.size() && f[i] == '*') { ++i; if (next >= args.size() || !args[next].as_int) bad(); return (int)*args[next++].as_int; }
      int n = 0; while (i < f.size() && ascii_isdigit(f[i])) n = n * 10 + f[i++] - '0';
      return n;
    };
    if (i < f.size() && (f[i] == '*' || ascii_isdigit(f[i]))) { s.width = number(); if (s.width < 0) { s.left = true; s.width = -s.width; } }
    if (i < f.size() && f[i] == '.') { ++i; s.prec = number(); }
    while (i < f.size() && strchr("hlLqjzt", f[i])) ++i;
    if (i >= f.size()) bad();
    s.conv = f[i++];
    const size_t idx = pos ? pos - 1 : next++;
    if (idx >= args.size()) bad();
    args[idx].put(out, s);
  }
  return out;
}
}  // namespace str_format_internal
template<typename... A> struct FormatSpec { string_view f; constexpr FormatSpec(const char* s) : f(s) {} constexpr FormatSpec(string_view s) : f(s) {} };
template<typename... A> [[nodiscard]] std::string StrFormat(string_view f, const A&... a) { return str_format_internal::FormatPack(f, {str_format_internal::MakeArg(a)...}); }
template<typename... A> std::string& StrAppendFormat(std::string* d, string_view f, const A&... a) { return d->append(StrFormat(f, a...)); }
struct Streamable { std::string s; friend std::ostream& operator<<(std::ostream& os, const Streamable& v) { return os << v.s; } };
template<typename... A> [[nodiscard]] Streamable StreamFormat(string_view f, const A&... a) { return {StrFormat(f, a...)}; }
template<typename S, typename... A> bool Format(S* sink, string_view f, const A&... a) {
  const std::string s = StrFormat(f, a...);
  if constexpr (std::is_same_v<S, std::string>) sink->append(s);
  else if constexpr (std::is_base_of_v<std::ostream, S>) *sink << s;
  else if constexpr (requires { sink->Append(string_view(s)); }) sink->Append(string_view(s));
  else AbslFormatFlush(sink, string_view(s));
  return true;
}
template<typename... A> int PrintF(string_view f, const A&... a) { const std::string s = StrFormat(f, a...); return (int)fwrite(s.data(), 1, s.size(), stdout); }

// ----------------------------------------------------------------------- Span
template<typename T> class Span {
 public:
  using value_type = std::remove_cv_t<T>; using element_type = T; using iterator = T*; using const_iterator = const T*; using size_type = size_t;
  constexpr Span() = default;
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template<size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template<typename C> requires(!std::is_same_v<std::remove_cvref_t<C>, Span> && requires(C& c) { { c.data() } -> std::convertible_to<T*>; c.size(); })
  constexpr Span(C& c) : p_(c.data()), n_(c.size()) {}
  template<typename C> requires(std::is_const_v<T> && !std::is_same_v<std::remove_cvref_t<C>, Span> && requires(const C& c) { { c.data() } -> std::convertible_to<T*>; c.size(); })
  constexpr Span(const C& c) : p_(c.data()), n_(c.size()) {}
  constexpr Span(std::initializer_list<value_type> l) requires(std::is_const_v<T>) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }
  constexpr T& at(size_t i) const { if (i >= n_) abort(); return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr Span subspan(size_t pos, size_t len = (size_t)-1) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t n) const { return Span(p_, n); }
  constexpr Span last(size_t n) const { return Span(p_ + n_ - n, n); }
  constexpr void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  constexpr void remove_suffix(size_t n) { n_ -= n; }
  friend constexpr bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
 private:
  T* p_ = nullptr; size_t n_ = 0;
};
template<typename C> constexpr auto MakeSpan(C& c) { return Span<std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template<typename T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template<typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template<typename C> constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template<typename T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
template<typename T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }

// -------------------------------------------------------------------- hashing
class HashState {
 public:
  uint64_t h = 0x9E3779B97F4A7C15ULL;
  static HashState raw(HashState s, uint64_t v) { s.h = (s.h ^ v) * 0xff51afd7ed558ccdULL; s.h ^= s.h >> 32; return s; }
  template<typename T> static HashState combine_contiguous(HashState s, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) s = combine(std::move(s), p[i]); return raw(std::move(s), n); }
  static HashState combine(HashState s) { return s; }
  template<typename T, typename... R> static HashState combine(HashState s, const T& v, const R&... r) { return combine(one(std::move(s), v), r...); }
  template<typename T> static HashState one(HashState s, const T& v) {
    if constexpr (std::is_same_v<T, HashState>) return raw(std::move(s), v.h);
    else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return raw(std::move(s), (uint64_t)v);
    else if constexpr (std::is_floating_point_v<T>) { double d = v == 0 ? 0 : (double)v; uint64_t b; memcpy(&b, &d, 8); return raw(std::move(s), b); }
    else if constexpr (requires { { AbslHashValue(std::move(s), v) } -> std::same_as<HashState>; }) return AbslHashValue(std::move(s), v);
    else if constexpr (std::is_pointer_v<T>) return raw(std::move(s), (uint64_t)(uintptr_t)v);
    else if constexpr (std::is_convertible_v<const T&, string_view>) { const string_view w(v); return combine_contiguous(std::move(s), w.data(), w.size()); }
    else if constexpr (requires { std::tuple_size<T>::value; } && !requires { v.begin(); }) return std::apply([&](const auto&... e) { return combine(std::move(s), e...); }, v);
    else if constexpr (requires { v.has_value(); *v; }) return v.has_value() ? combine(std::move(s), true, *v) : combine(std::move(s), false);
    else if constexpr (requires { v.begin(); v.end(); }) { size_t n = 0; for (const auto& e : v) { s = combine(std::move(s), e); ++n; } return raw(std::move(s), n); }
    else if constexpr (requires { v.index(); std::variant_size<T>::value; }) { s = combine(std::move(s), v.index()); return std::visit([&](const auto& e) { return combine(std::move(s), e); }, v); }
    else if constexpr (requires { v.get(); *v; }) return raw(std::move(s), (uint64_t)(uintptr_t)v.get());
    else return raw(std::move(s), std::hash<T>{}(v));
  }
};
template<typename T> struct Hash { size_t operator()(const T& v) const { return HashState::combine(HashState{}, v).h; } };
template<typename... T> size_t HashOf(const T&... v) { return HashState::combine(HashState{}, v...).h; }
namespace container_internal {
struct StringHash { using is_transparent = void; size_t operator()(string_view s) const { return HashState::combine(HashState{}, s).h; } };
struct StringEq { using is_transparent = void; bool operator()(string_view a, string_view b) const { return a == b; } };
template<typename K> struct DefHash : Hash<K> {};
template<> struct DefHash<std::string> : StringHash {};
template<> struct DefHash<string_view> : StringHash {};
template<typename K> struct DefEq : std::equal_to<K> {};
template<> struct DefEq<std::string> : StringEq {};
template<> struct DefEq<string_view> : StringEq {};
template<typename K> struct DefLess : std::less<K> {};
struct StringLess { using is_transparent = void; bool operator()(string_view a, string_view b) const { return a < b; } };
template<> struct DefLess<std::string> : StringLess {};
template<> struct DefLess<string_view> : StringLess {};
template<typename Cmp> struct PickLess { using type = Cmp; };
template<> struct PickLess<std::less<std::string>> { using type = DefLess<std::string>; };
template<> struct PickLess<std::less<string_view>> { using type = DefLess<string_view>; };
// Open addressing: like the original, elements move when the table grows.
template<typename Value, typename Key, typename KeyOf, typename H, typename E>
class FlatTable {
 public:
  using key_type = Key; using value_type = Value; using size_type = size_t; using reference = Value&; using const_reference = const Value&;
  using hasher = H; using key_equal = E; using difference_type = ptrdiff_t;
  template<bool kConst> class It {
   public:
    using iterator_category = std::forward_iterator_tag; using value_type = Value; using difference_type = ptrdiff_t;
    using reference = std::conditional_t<kConst, const Value&, Value&>; using pointer = std::conditional_t<kConst, const Value*, Value*>;
    It() = default;
    It(const FlatTable* t, size_t i) : t_(t), i_(i) { skip(); }
    template<bool kO> requires(kConst && !kO) It(const It<kO>& o) : t_(o.t_), i_(o.i_) {}
    reference operator*() const { return *const_cast<FlatTable*>(t_)->at_slot(i_); }
    pointer operator->() const { return const_cast<FlatTable*>(t_)->at_slot(i_); }
    It& operator++() { ++i_; skip(); return *this; }
    It operator++(int) { It r = *this; ++*this; return r; }
    template<bool kO> bool operator==(const It<kO>& o) const { return i_ == o.i_; }
    const FlatTable* t_ = nullptr; size_t i_ = 0;
   private:
    void skip() { while (i_ < t_->st_.size() && t_->st_[i_] != 1) ++i_; }
  };
  using iterator = It<false>; using const_iterator = It<true>;
  FlatTable() = default;
  ~FlatTable() { clear(); }
  FlatTable(const FlatTable& o) { for (const auto& v : o) insert(v); }
  FlatTable(FlatTable&& o) noexcept { swap(o); }
  FlatTable& operator=(const FlatTable& o) { if (this != &o) { clear(); for (const auto& v : o) insert(v); } return *this; }
  FlatTable& operator=(FlatTable&& o) noexcept { if (this != &o) { clear(); swap(o); } return *this; }
  FlatTable(std::initializer_list<Value> l) { for (const auto& v : l) insert(v); }
  template<typename I> FlatTable(I b, I e) { for (; b != e; ++b) insert(*b); }
  void swap(FlatTable& o) noexcept { std::swap(st_, o.st_); std::swap(mem_, o.mem_); std::swap(n_, o.n_); std::swap(used_, o.used_); std::swap(seed_, o.seed_); }
  iterator begin() { return iterator(this, 0); }
  iterator end() { return iterator(this, st_.size()); }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, st_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void reserve(size_t n) { if (n * 2 > st_.size()) rehash_to(n); }
  void clear() { for (size_t i = 0; i < st_.size(); ++i) if (st_[i] == 1) std::destroy_at(at_slot(i)); st_.clear(); mem_.reset(); n_ = used_ = 0; }
  template<typename K> iterator find(const K& k) { return iterator(this, index(k)); }
  template<typename K> const_iterator find(const K& k) const { return const_iterator(this, index(k)); }
  iterator find(const Key& k) { return iterator(this, index(k)); }
  const_iterator find(const Key& k) const { return const_iterator(this, index(k)); }
  template<typename K> bool contains(const K& k) const { return index(k) != st_.size(); }
  bool contains(const Key& k) const { return index(k) != st_.size(); }
  template<typename K> size_t count(const K& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const Value& v) { return emplace_key(KeyOf{}(v), v); }
  std::pair<iterator, bool> insert(Value&& v) { Key k(KeyOf{}(v)); return emplace_key(k, std::move(v)); }
  template<typename... A> std::pair<iterator, bool> emplace(A&&... a) { Value v(std::forward<A>(a)...); Key k(KeyOf{}(v)); return emplace_key(k, std::move(v)); }
  template<typename I> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<Value> l) { for (const auto& v : l) insert(v); }
  void erase(const_iterator it) { kill(it.i_); }
  void erase(iterator it) { kill(it.i_); }
  iterator erase(const_iterator b, const_iterator e) { while (b != e) { const size_t i = b.i_; ++b; kill(i); } return iterator(this, e.i_); }
  template<typename K> requires(!std::is_convertible_v<K, const_iterator>) size_t erase(const K& k) { const size_t i = index(k); if (i == st_.size()) return 0; kill(i); return 1; }
  Value* at_slot(size_t i) { return reinterpret_cast<Value*>(mem_.get() + i * sizeof(Value)); }
  const Value* at_slot(size_t i) const { return reinterpret_cast<const Value*>(mem_.get() + i * sizeof(Value)); }
  friend bool operator==(const FlatTable& a, const FlatTable& b) {
    if (a.size() != b.size()) return false;
    for (const auto& v : a) { auto it = b.find(KeyOf{}(v)); if (it == b.end() || !(*it == v)) return false; }
    return true;
  }
 protected:
  template<typename K, typename... A> std::pair<iterator, bool> emplace_key(const K& k, A&&... a) {
    size_t i = index(k);
    if (i != st_.size()) return {iterator(this, i), false};
    if ((used_ + 1) * 8 > st_.size() * 7) {
      Value v(std::forward<A>(a)...);
      rehash_to(std::max<size_t>(4, n_ * 2));
      const Key& kk = KeyOf{}(v);
      i = slot_for(kk);
      std::construct_at(at_slot(i), std::move(v));
    } else {
      i = slot_for(k);
      std::construct_at(at_slot(i), std::forward<A>(a)...);
    }
    if (st_[i] == 0) ++used_;
    st_[i] = 1; ++n_;
    return {iterator(this, i), true};
  }
  template<typename K> size_t index(const K& k) const {
    if (st_.empty()) return 0;
    for (size_t i = home(k), c = 0; c < st_.size(); ++c, i = (i + 1) & (st_.size() - 1)) {
      if (st_[i] == 0) break;
      if (st_[i] == 1 && E{}(KeyOf{}(*at_slot(i)), k)) return i;
    }
    return st_.size();
  }
 private:
  template<typename K> size_t slot_for(const K& k) const { size_t i = home(k); while (st_[i] == 1) i = (i + 1) & (st_.size() - 1); return i; }
  void kill(size_t i) { std::destroy_at(at_slot(i)); st_[i] = 2; --n_; }
  void rehash_to(size_t n) {
    size_t cap = 4;
    while (cap * 7 < n * 8 || cap < n + 1) cap *= 2;
    std::vector<unsigned char> st(cap, 0);
    std::unique_ptr<unsigned char[]> mem(new unsigned char[cap * sizeof(Value) + 1]);
    std::swap(st, st_); std::swap(mem, mem_);
    for (size_t i = 0; i < st.size(); ++i) {
      if (st[i] != 1) continue;
      Value* v = reinterpret_cast<Value*>(mem.get() + i * sizeof(Value));
      const size_t j = slot_for(KeyOf{}(*v));
      std::construct_at(at_slot(j), std::move(*v));
      std::destroy_at(v);
      st_[j] = 1;
    }
    used_ = n_;
  }
  std::vector<unsigned char> st_; std::unique_ptr<unsigned char[]> mem_; size_t n_ = 0, used_ = 0;
  // Like the original, every table has an order of its own.
  static size_t NextSeed() { static size_t s = 0; return s += 0x9E3779B97F4A7C15ULL; }
  size_t seed_ = NextSeed();
  template<typename K> size_t home(const K& k) const { size_t h = (H{}(k) ^ seed_) * 0xD6E8FEB86659FD93ULL; return (h ^ (h >> 32)) & (st_.size() - 1); }
};
struct First { template<typename P> const auto& operator()(const P& p) const { return p.first; } };
struct Self { template<typename P> const P& operator()(const P& p) const { return p; } };
}  // namespace container_internal
template<typename K, typename V, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
class flat_hash_map : public container_internal::FlatTable<std::pair<const K, V>, K, container_internal::First, H, E> {
  using B = container_internal::FlatTable<std::pair<const K, V>, K, container_internal::First, H, E>;
 public:
  using mapped_type = V; using typename B::iterator; using typename B::const_iterator;
  using B::B;
  template<typename Q = K, typename... X> std::pair<iterator, bool> try_emplace(Q&& k, X&&... a) {
    if (auto it = this->find(k); it != this->end()) return {it, false};
    K key(std::forward<Q>(k));
    return this->emplace_key(key, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<X>(a)...));
  }
  template<typename Q = K, typename M> std::pair<iterator, bool> insert_or_assign(Q&& k, M&& m) {
    if (auto it = this->find(k); it != this->end()) { it->second = std::forward<M>(m); return {it, false}; }
    return try_emplace(std::forward<Q>(k), std::forward<M>(m));
  }
  template<typename Q = K> V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  template<typename Q = K> V& at(const Q& k) { auto it = this->find(k); if (it == this->end()) abort(); return it->second; }
  template<typename Q = K> const V& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) abort(); return it->second; }
};
template<typename K, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
class flat_hash_set : public container_internal::FlatTable<K, K, container_internal::Self, H, E> {
 public:
  using container_internal::FlatTable<K, K, container_internal::Self, H, E>::FlatTable;
};
template<typename K, typename V, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = std::allocator<std::pair<const K, V>>>
class node_hash_map : public std::unordered_map<K, V, H, E, A> {
  using B = std::unordered_map<K, V, H, E, A>;
 public:
  using B::B; using typename B::iterator;
  template<typename Q = K, typename... X> std::pair<iterator, bool> try_emplace(Q&& k, X&&... a) { return B::try_emplace(K(std::forward<Q>(k)), std::forward<X>(a)...); }
  template<typename Q = K, typename M> std::pair<iterator, bool> insert_or_assign(Q&& k, M&& m) { return B::insert_or_assign(K(std::forward<Q>(k)), std::forward<M>(m)); }
  template<typename Q = K> V& operator[](Q&& k) { return B::operator[](K(std::forward<Q>(k))); }
  using B::erase;
  template<typename Q> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q>) size_t erase(const Q& k) { return B::erase(K(k)); }
};
template<typename K, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>>
using node_hash_set = std::unordered_set<K, H, E>;
template<typename K, typename V, typename C = std::less<K>, typename A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, typename container_internal::PickLess<C>::type, A> {
  using B = std::map<K, V, typename container_internal::PickLess<C>::type, A>;
 public:
  using B::B; using typename B::iterator;
  template<typename Q = K, typename... X> std::pair<iterator, bool> try_emplace(Q&& k, X&&... a) { return B::try_emplace(K(std::forward<Q>(k)), std::forward<X>(a)...); }
  template<typename Q = K, typename M> std::pair<iterator, bool> insert_or_assign(Q&& k, M&& m) { return B::insert_or_assign(K(std::forward<Q>(k)), std::forward<M>(m)); }
  template<typename Q = K> V& operator[](Q&& k) { return B::operator[](K(std::forward<Q>(k))); }
  using B::at;
  template<typename Q> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q>) V& at(const Q& k) { return B::at(K(k)); }
  template<typename Q> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q>) const V& at(const Q& k) const { return B::at(K(k)); }
  using B::erase;
  template<typename Q> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q>) size_t erase(const Q& k) { return B::erase(K(k)); }
};
template<typename K, typename V, typename C = std::less<K>> using btree_multimap = std::multimap<K, V, typename container_internal::PickLess<C>::type>;
template<typename K, typename C = std::less<K>, typename A = std::allocator<K>>
class btree_set : public std::set<K, typename container_internal::PickLess<C>::type, A> {
 public:
  using std::set<K, typename container_internal::PickLess<C>::type, A>::set;
};
template<typename K, typename C = std::less<K>> using btree_multiset = std::multiset<K, typename container_internal::PickLess<C>::type>;
template<typename M, typename P> size_t erase_if(M& m, P p) { size_t n = 0; for (auto it = m.begin(); it != m.end();) { auto c = it++; if (p(*c)) { m.erase(c); ++n; } } return n; }
template<typename T, size_t N> using InlinedVector = std::vector<T>;
template<typename T, size_t N = 0> using FixedArray = std::vector<T>;

// ----------------------------------------------------------------- algorithms
template<typename C, typename P> bool c_all_of(const C& c, P&& p) { return std::all_of(std::begin(c), std::end(c), p); }
template<typename C, typename P> bool c_any_of(const C& c, P&& p) { return std::any_of(std::begin(c), std::end(c), p); }
template<typename C, typename P> bool c_none_of(const C& c, P&& p) { return std::none_of(std::begin(c), std::end(c), p); }
template<typename C, typename T> auto c_find(C& c, const T& v) { return std::find(std::begin(c), std::end(c), v); }
template<typename C, typename P> auto c_find_if(C& c, P&& p) { return std::find_if(std::begin(c), std::end(c), p); }
template<typename C, typename P> auto c_find_if_not(C& c, P&& p) { return std::find_if_not(std::begin(c), std::end(c), p); }
template<typename C, typename T> auto c_count(const C& c, const T& v) { return std::count(std::begin(c), std::end(c), v); }
template<typename C, typename P> auto c_count_if(const C& c, P&& p) { return std::count_if(std::begin(c), std::end(c), p); }
template<typename C, typename T> bool c_contains(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template<typename C> bool c_linear_search(const C& c, const auto& v) { return c_contains(c, v); }
template<typename C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template<typename C, typename F> void c_sort(C& c, F&& f) { std::sort(std::begin(c), std::end(c), f); }
template<typename C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template<typename A, typename B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template<typename C, typename O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template<typename C, typename O, typename F> O c_transform(const C& c, O o, F&& f) { return std::transform(std::begin(c), std::end(c), o, f); }
template<typename C, typename F> auto c_for_each(C&& c, F&& f) { return std::for_each(std::begin(c), std::end(c), f); }
template<typename C, typename T> T c_accumulate(const C& c, T v) { for (const auto& e : c) v = std::move(v) + e; return v; }

// -------------------------------------------------------------------- cleanup
template<typename F> class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  ~Cleanup() { if (on_) f_(); }
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
 private:
  F f_; bool on_ = true;
};
template<typename F> Cleanup(F) -> Cleanup<F>;
template<typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }

// ---------------------------------------------------------------------- mutex
enum ConstInitType { kConstInit };
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void AssertHeld() const {}
 private:
  std::mutex m_;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  ~MutexLock() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex& m_;
};
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;

// ----------------------------------------------------------------------- Cord
class Cord {
 public:
  Cord() = default;
  template<typename T> requires(std::is_convertible_v<T, string_view>) explicit Cord(T&& s) : s_(string_view(s)) {}
  explicit operator std::string() const { return s_; }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  string_view Flatten() { return s_; }
  std::optional<string_view> TryFlat() const { return string_view(s_); }
  void Append(string_view s) { s_ += s; }
  void Append(const Cord& s) { s_ += s.s_; }
  void Prepend(string_view s) { s_ = std::string(s) + s_; }
  bool operator==(const Cord&) const = default;
  bool operator==(string_view o) const { return s_ == o; }
  auto operator<=>(const Cord& o) const { return s_ <=> o.s_; }
  friend std::ostream& operator<<(std::ostream& os, const Cord& c) { return os << c.s_; }
  template<typename H> friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), c.s_); }
  template<typename S> friend void AbslStringify(S& s, const Cord& c) { s.Append(string_view(c.s_)); }
 private:
  std::string s_;
};

// --------------------------------------------------------------------- Status
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7,
  kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
                            "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return (int)c >= 0 && (int)c <= 16 ? n[(int)c] : "";
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
class Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) : code_(c), msg_(c == StatusCode::kOk ? string_view() : m) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : code_(o.code_), msg_(std::move(o.msg_)), pl_(std::move(o.pl_)) { if (o.code_ != StatusCode::kOk) o.moved(); }
  Status& operator=(Status&& o) noexcept { if (this != &o) { code_ = o.code_; msg_ = std::move(o.msg_); pl_ = std::move(o.pl_); if (o.code_ != StatusCode::kOk) o.moved(); } return *this; }
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return (int)code_; }
  string_view message() const { return msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  std::optional<Cord> GetPayload(string_view url) const { for (auto& p : pl_) if (p.first == url) return p.second; return std::nullopt; }
  void SetPayload(string_view url, Cord c) { if (ok()) return; for (auto& p : pl_) if (p.first == url) { p.second = std::move(c); return; } pl_.emplace_back(std::string(url), std::move(c)); }
  bool ErasePayload(string_view url) { for (auto it = pl_.begin(); it != pl_.end(); ++it) if (it->first == url) { pl_.erase(it); return true; } return false; }
  template<typename F> void ForEachPayload(F&& f) const { for (auto& p : pl_) f(string_view(p.first), p.second); }
  std::string ToString() const {
    if (ok()) return "OK";
    std::string r = StatusCodeToString(code_) + ": " + msg_;
    for (auto& p : pl_) r += " [" + p.first + "='" + CHexEscape(std::string(p.second)) + "']";
    return r;
  }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.code_ != b.code_ || a.msg_ != b.msg_ || a.pl_.size() != b.pl_.size()) return false;
    for (auto& p : a.pl_) { auto q = b.GetPayload(p.first); if (!q || !(*q == p.second)) return false; }
    return true;
  }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
  template<typename S> friend void AbslStringify(S& k, const Status& s) { k.Append(string_view(s.ToString())); }
  friend void swap(Status& a, Status& b) { std::swap(a.code_, b.code_); std::swap(a.msg_, b.msg_); std::swap(a.pl_, b.pl_); }
 private:
  void moved() { code_ = StatusCode::kInternal; msg_ = "Status accessed after move."; pl_.clear(); }
  StatusCode code_ = StatusCode::kOk; std::string msg_; std::vector<std::pair<std::string, Cord>> pl_;
};
inline Status OkStatus() { return Status(); }
#define ABSL_SHIM_ERR(n) inline Status n##Error(string_view m) { return Status(StatusCode::k##n, m); } inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
ABSL_SHIM_ERR(Cancelled) ABSL_SHIM_ERR(Unknown) ABSL_SHIM_ERR(InvalidArgument) ABSL_SHIM_ERR(DeadlineExceeded) ABSL_SHIM_ERR(NotFound) ABSL_SHIM_ERR(AlreadyExists)
ABSL_SHIM_ERR(PermissionDenied) ABSL_SHIM_ERR(ResourceExhausted) ABSL_SHIM_ERR(FailedPrecondition) ABSL_SHIM_ERR(Aborted) ABSL_SHIM_ERR(OutOfRange)
ABSL_SHIM_ERR(Unimplemented) ABSL_SHIM_ERR(Internal) ABSL_SHIM_ERR(Unavailable) ABSL_SHIM_ERR(DataLoss) ABSL_SHIM_ERR(Unauthenticated)
#undef ABSL_SHIM_ERR
inline Status ErrnoToStatus(int e, string_view m) { return Status(e == 2 ? StatusCode::kNotFound : StatusCode::kUnknown, StrCat(m, ": ", strerror(e))); }
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
template<typename T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) : s_(o.s_.ok() ? Status() : std::move(o.s_)), v_(std::move(o.v_)) {}
  StatusOr& operator=(StatusOr&& o) { if (this != &o) { s_ = o.s_.ok() ? Status() : std::move(o.s_); v_ = std::move(o.v_); } return *this; }
  StatusOr(const Status& s) : s_(s) { check(); }
  StatusOr(Status&& s) : s_(std::move(s)) { check(); }
  template<typename U = T> requires(std::is_constructible_v<T, U&&> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && std::is_convertible_v<U&&, T>
    && !requires(U u) { typename std::remove_cvref_t<U>::absl_shim_status_convertible; } && !std::is_convertible_v<U&&, Status>)
  StatusOr(U&& v) : v_(std::forward<U>(v)) {}
  template<typename U = T> requires(std::is_constructible_v<T, U&&> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && !std::is_convertible_v<U&&, T> && !std::is_convertible_v<U&&, Status>)
  explicit StatusOr(U&& v) : v_(std::forward<U>(v)) {}
  template<typename U> requires(std::is_convertible_v<U&&, Status> && !std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_convertible_v<U&&, T>)
  StatusOr(U&& s) : s_(std::forward<U>(s)) { check(); }
  template<typename U> requires(!std::is_same_v<T, U> && std::is_convertible_v<const U&, T>) StatusOr(const StatusOr<U>& o) : s_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template<typename U> requires(!std::is_same_v<T, U> && std::is_convertible_v<U&&, T>) StatusOr(StatusOr<U>&& o) : s_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  template<typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template<typename... A> T& emplace(A&&... a) { s_ = Status(); v_.emplace(std::forward<A>(a)...); return *v_; }
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_.ok() ? Status() : std::move(s_); }
  const T& value() const& { need(); return *v_; }
  T& value() & { need(); return *v_; }
  T&& value() && { need(); return std::move(*v_); }
  const T& operator*() const& { need(); return *v_; }
  T& operator*() & { need(); return *v_; }
  T&& operator*() && { need(); return std::move(*v_); }
  const T&& operator*() const&& { need(); return std::move(*v_); }
  const T* operator->() const { need(); return &*v_; }
  T* operator->() { need(); return &*v_; }
  template<typename U> T value_or(U&& d) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(d)); }
  template<typename U> T value_or(U&& d) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a == *b : a.s_ == b.s_; }
 private:
  void check() { if (s_.ok()) { std::cerr << "An OK status is not a valid constructor argument to StatusOr<T>\n"; s_ = InternalError("ok status"); } }
  void need() const { if (!s_.ok()) { std::cerr << "Attempting to fetch value instead of handling error " << s_ << std::endl; abort(); } }
  Status s_; std::optional<T> v_;
};

// ----------------------------------------------------------------------- time
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(int64_t ns) : ns(ns) {}
  int64_t ns = 0;
  auto operator<=>(const Duration&) const = default;
  Duration operator-() const { return Duration(-ns); }
  Duration& operator+=(Duration d) { ns += d.ns; return *this; }
  Duration& operator-=(Duration d) { ns -= d.ns; return *this; }
  friend Duration operator+(Duration a, Duration b) { return Duration(a.ns + b.ns); }
  friend Duration operator-(Duration a, Duration b) { return Duration(a.ns - b.ns); }
  template<typename N> requires(std::is_arithmetic_v<N>) friend Duration operator*(Duration a, N n) { return Duration((int64_t)(a.ns * n)); }
  template<typename N> requires(std::is_arithmetic_v<N>) friend Duration operator/(Duration a, N n) { return Duration((int64_t)(a.ns / n)); }
};
constexpr Duration Nanoseconds(int64_t n) { return Duration(n); }
template<typename N> constexpr Duration Microseconds(N n) { if constexpr (std::is_integral_v<N>) return Duration((int64_t)n * 1000); else return Duration((int64_t)(n * 1000)); }
template<typename N> constexpr Duration Milliseconds(N n) { if constexpr (std::is_integral_v<N>) return Duration((int64_t)n * 1000000); else return Duration((int64_t)(n * 1000000)); }
template<typename N> constexpr Duration Seconds(N n) { if constexpr (std::is_integral_v<N>) return Duration((int64_t)n * 1000000000LL); else return Duration((int64_t)(n * 1000000000LL)); }
template<typename N> constexpr Duration Minutes(N n) { if constexpr (std::is_integral_v<N>) return Seconds((int64_t)n * 60); else return Seconds(n * 60); }
template<typename N> constexpr Duration Hours(N n) { return Seconds(n * 3600); }
constexpr Duration ZeroDuration() { return Duration(); }
constexpr Duration InfiniteDuration() { return Duration(std::numeric_limits<int64_t>::max()); }
inline double ToDoubleSeconds(Duration d) { return d.ns / 1e9; }
inline int64_t ToInt64Seconds(Duration d) { return d.ns / 1000000000LL; }
inline int64_t ToInt64Milliseconds(Duration d) { return d.ns / 1000000LL; }
inline int64_t ToInt64Nanoseconds(Duration d) { return d.ns; }
inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(d.ns); }
inline std::string FormatDuration(Duration d) {
  if (d.ns == 0) return "0";
  if (d.ns == INT64_MAX) return "inf";
  if (d.ns == INT64_MIN || d.ns == -INT64_MAX) return "-inf";
  std::string r = d.ns < 0 ? "-" : "";
  int64_t n = d.ns < 0 ? -d.ns : d.ns;
  char b[64];
  if (n < 1000000000) {
    snprintf(b, sizeof b, "%.15g%s", n < 1000 ? (double)n : n < 1000000 ? n / 1e3 : n / 1e6, n < 1000 ? "ns" : n < 1000000 ? "us" : "ms");
    return r + b;
  }
  if (const int64_t h = n / 3600000000000LL) r += std::to_string(h) + "h";
  if (const int64_t m = n / 60000000000LL % 60) r += std::to_string(m) + "m";
  if (const int64_t s = n % 60000000000LL) { snprintf(b, sizeof b, "%.15gs", s / 1e9); r += b; }
  return r;
}
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }
inline bool ParseDuration(string_view s, Duration* d) {
  const std::string t(s); char* e; const double v = strtod(t.c_str(), &e); const std::string u(e);
  const double f = u == "s" ? 1e9 : u == "ms" ? 1e6 : u == "us" ? 1e3 : u == "ns" ? 1 : u == "m" ? 60e9 : u == "h" ? 3600e9 : (u.empty() && v == 0) ? 1 : -1;
  if (f < 0) return false;
  *d = Duration((int64_t)(v * f)); return true;
}
class Time {
 public:
  constexpr Time() = default;
  constexpr explicit Time(int64_t ns) : ns(ns) {}
  int64_t ns = 0;
  auto operator<=>(const Time&) const = default;
  friend Duration operator-(Time a, Time b) { return Duration(a.ns - b.ns); }
  friend Time operator+(Time a, Duration b) { return Time(a.ns + b.ns); }
  friend Time operator-(Time a, Duration b) { return Time(a.ns - b.ns); }
  Time& operator+=(Duration d) { ns += d.ns; return *this; }
};
inline Time (*shim_now)() = nullptr;  // tests may replace the clock
inline Time Now() { return shim_now ? shim_now() : Time(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count()); }
constexpr Time UnixEpoch() { return Time(0); }
inline Time FromUnixSeconds(int64_t s) { return Time(s * 1000000000LL); }
inline Time FromUnixMillis(int64_t s) { return Time(s * 1000000LL); }
inline Time FromUnixNanos(int64_t s) { return Time(s); }
inline Time FromTimeT(time_t t) { return FromUnixSeconds(t); }
inline int64_t ToUnixSeconds(Time t) { return t.ns >= 0 ? t.ns / 1000000000LL : -((-t.ns + 999999999LL) / 1000000000LL); }
inline int64_t ToUnixMillis(Time t) { return t.ns / 1000000LL; }
inline int64_t ToUnixNanos(Time t) { return t.ns; }
inline time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
template<typename D> Time FromChrono(const std::chrono::time_point<std::chrono::system_clock, D>& t) { return Time(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()); }
template<typename R, typename P> Duration FromChrono(const std::chrono::duration<R, P>& d) { return Duration(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(t.ns))); }
struct TimeZone { int off = 0; std::string n = "UTC"; std::string name() const { return n; } bool operator==(const TimeZone&) const = default; };
inline TimeZone UTCTimeZone() { return {}; }
inline TimeZone LocalTimeZone() { return {}; }
inline TimeZone FixedTimeZone(int s) { return {s, "Fixed"}; }
inline constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
inline constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
inline std::string FormatTime(string_view f, Time t, const TimeZone& tz) {
  std::string r; const int64_t sec = ToUnixSeconds(t); const int64_t frac = t.ns - sec * 1000000000LL; const time_t tt = sec + tz.off; struct tm tm; gmtime_r(&tt, &tm);
  auto zone = [&](bool colon) { char b[16]; const int a = abs(tz.off) / 60; snprintf(b, sizeof b, colon ? "%c%02d:%02d" : "%c%02d%02d", tz.off < 0 ? '-' : '+', a / 60, a % 60); return std::string(b); };
  auto put = [&](const char* c) { char b[128]; b[strftime(b, sizeof b, c, &tm)] = 0; return std::string(b); };
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%' || i + 1 >= f.size()) { r += f[i]; continue; }
    ++i;
    if (f[i] == 'E' && i + 1 < f.size()) {
      ++i;
      if (f[i] == 'T') { r += 'T'; continue; }
      if (f[i] == 'z') { r += zone(true); continue; }
      if (f[i] == '*' && i + 1 < f.size()) { ++i; std::string s = f[i] == 'S' ? put("%S") : ""; if (frac || f[i] == 'f') { char b[16]; snprintf(b, sizeof b, "%09d", (int)frac); std::string x(b); while (x.size() > 1 && x.back() == '0') x.pop_back(); s += (f[i] == 'S' ? "." : "") + x; } r += s; continue; }
      if (ascii_isdigit(f[i]) && i + 1 < f.size()) { const int n = f[i] - '0'; ++i; char b[16]; snprintf(b, sizeof b, "%09d", (int)frac); r += (f[i] == 'S' ? put("%S") + (n ? "." : "") : "") + std::string(b).substr(0, n); continue; }
      char c[4] = {'%', 'E', f[i], 0}; r += put(c); continue;
    }
    if (f[i] == 'z') { r += zone(false); continue; }
    if (f[i] == 'Z') { r += tz.n; continue; }
    if (f[i] == 's') { r += std::to_string(sec); continue; }
    char c[3] = {'%', f[i], 0}; r += put(c);
  }
  return r;
}
inline std::string FormatTime(Time t, const TimeZone& tz) { return FormatTime(RFC3339_full, t, tz); }
inline std::string FormatTime(Time t) { return FormatTime(RFC3339_full, t, UTCTimeZone()); }
inline void SleepFor(Duration d) { struct timespec ts{(time_t)(d.ns / 1000000000LL), (long)(d.ns % 1000000000LL)}; nanosleep(&ts, nullptr); }

// -------------------------------------------------------------------- logging
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
enum class LogSeverityAtMost : int { kNegativeInfinity = -1000, kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
inline const char* LogSeverityName(LogSeverity s) { static const char* n[] = {"INFO", "WARNING", "ERROR", "FATAL"}; return (int)s >= 0 && (int)s < 4 ? n[(int)s] : "UNKNOWN"; }
inline constexpr LogSeverity NormalizeLogSeverity(LogSeverity s) { return s < LogSeverity::kInfo ? LogSeverity::kInfo : s > LogSeverity::kFatal ? LogSeverity::kError : s; }
inline std::ostream& operator<<(std::ostream& os, LogSeverity s) { return os << LogSeverityName(s); }
inline void InitializeLog() {}
inline LogSeverityAtLeast shim_stderr_threshold = LogSeverityAtLeast::kError;
inline LogSeverityAtLeast shim_min_log_level = LogSeverityAtLeast::kInfo;
inline void SetStderrThreshold(LogSeverityAtLeast s) { shim_stderr_threshold = s; }
inline void SetStderrThreshold(LogSeverity s) { shim_stderr_threshold = (LogSeverityAtLeast)s; }
inline LogSeverityAtLeast StderrThreshold() { return shim_stderr_threshold; }
inline void SetMinLogLevel(LogSeverityAtLeast s) { shim_min_log_level = s; }
inline LogSeverityAtLeast MinLogLevel() { return shim_min_log_level; }
struct LogRecord { LogSeverity severity; std::string file; int line; std::string message; };
inline std::function<void(const LogRecord&)> shim_log_hook;  // receives every message
namespace log_internal {
class LogMessage {
 public:
  LogMessage(const char* f, int l, LogSeverity s) : sev_(s), file_(f), line_(l) {}
  ~LogMessage() {
    if ((int)sev_ >= (int)shim_min_log_level || sev_ == LogSeverity::kFatal) {
      const std::string m = s_.str();
      if (shim_log_hook) shim_log_hook({sev_, file_, line_, m});
      if (sev_ == LogSeverity::kFatal || (!shim_log_hook && (int)sev_ >= (int)shim_stderr_threshold)) std::cerr << LogSeverityName(sev_)[0] << " " << file_ << ":" << line_ << "] " << m << std::endl;
    }
    if (sev_ == LogSeverity::kFatal) abort();
  }
  LogMessage& AtLocation(string_view f, int l) { file_ = f; line_ = l; return *this; }
  LogMessage& NoPrefix() { return *this; }
  LogMessage& WithPerror() { return *this; }
  LogMessage& InternalStream() { return *this; }
  template<typename T> LogMessage& operator<<(const T& v) {
    if constexpr (HasAbslStringify<T>::value && !requires { s_ << v; }) { std::string t; strings_internal::StringSink k{&t}; AbslStringify(k, v); s_ << t; }
    else s_ << v;
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*m)(std::ostream&)) { s_ << m; return *this; }
 private:
  LogSeverity sev_; std::string file_; int line_; std::ostringstream s_;
};
struct Voidify { template<typename T> void operator&&(const T&) const {} };
inline constexpr LogSeverity kSevINFO = LogSeverity::kInfo, kSevWARNING = LogSeverity::kWarning, kSevERROR = LogSeverity::kError, kSevFATAL = LogSeverity::kFatal, kSevQFATAL = LogSeverity::kFatal,
  kSevDFATAL = LogSeverity::kError;
inline LogSeverity SevLEVEL_(LogSeverity s) { return s; }
inline LogSeverity SevLEVEL_(int s) { return (LogSeverity)s; }
}  // namespace log_internal
#define ABSL_SHIM_SEV_INFO ::absl::LogSeverity::kInfo
#define ABSL_SHIM_SEV_WARNING ::absl::LogSeverity::kWarning
#define ABSL_SHIM_SEV_ERROR ::absl::LogSeverity::kError
#define ABSL_SHIM_SEV_FATAL ::absl::LogSeverity::kFatal
#define ABSL_SHIM_SEV_QFATAL ::absl::LogSeverity::kFatal
#define ABSL_SHIM_SEV_DFATAL ::absl::LogSeverity::kFatal
#define ABSL_SHIM_SEV_LEVEL(x) ::absl::log_internal::SevLEVEL_(x)
#define ABSL_SHIM_LOG(sev) ::absl::log_internal::LogMessage(__FILE__, __LINE__, sev)
#define ABSL_SHIM_LOG_IF(sev, c) !(c) ? (void)0 : ::absl::log_internal::Voidify() && ABSL_SHIM_LOG(sev)
#define ABSL_LOG(s) ::absl::log_internal::LogMessage(__FILE__, __LINE__, ABSL_SHIM_SEV_##s)
#define ABSL_LOG_IF(s, c) ABSL_SHIM_LOG_IF(ABSL_SHIM_SEV_##s, (c))
#define ABSL_DLOG(s) ABSL_LOG(s)
#define ABSL_LOG_FIRST_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_N(s, n) ABSL_LOG(s)
#define ABSL_CHECK(c) ABSL_SHIM_LOG_IF(::absl::LogSeverity::kFatal, !(c)) << "Check failed: " #c " "
// as documented: a message, then _exit(1) without any cleaning up
namespace log_internal {
class QuietFatal {
 public:
  QuietFatal(const char* f, int l) { s_ << f << ":" << l << " "; }
  ~QuietFatal() { std::cerr << s_.str() << std::endl; _exit(1); }
  template<typename T> QuietFatal& operator<<(const T& v) { if constexpr (requires { s_ << v; }) s_ << v; return *this; }
 private:
  std::ostringstream s_;
};
}
#define ABSL_SHIM_QUIET(c) (c) ? (void)0 : ::absl::log_internal::Voidify() && ::absl::log_internal::QuietFatal(__FILE__, __LINE__)
#define ABSL_QCHECK(c) ABSL_SHIM_QUIET(c) << "Check failed: " #c " "
#define ABSL_QCHECK_EQ(a, b) ABSL_SHIM_QUIET((a) == (b)) << "Check failed: " #a " == " #b " "
#define ABSL_QCHECK_NE(a, b) ABSL_SHIM_QUIET((a) != (b)) << "Check failed: " #a " != " #b " "
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_SHIM_OP(a, b, op) ABSL_SHIM_LOG_IF(::absl::LogSeverity::kFatal, !((a)op(b))) << "Check failed: " #a " " #op " " #b " "
#define ABSL_CHECK_EQ(a, b) ABSL_SHIM_OP(a, b, ==)
#define ABSL_CHECK_NE(a, b) ABSL_SHIM_OP(a, b, !=)
#define ABSL_CHECK_LT(a, b) ABSL_SHIM_OP(a, b, <)
#define ABSL_CHECK_LE(a, b) ABSL_SHIM_OP(a, b, <=)
#define ABSL_CHECK_GT(a, b) ABSL_SHIM_OP(a, b, >)
#define ABSL_CHECK_GE(a, b) ABSL_SHIM_OP(a, b, >=)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_CHECK_OK(x) ABSL_CHECK((x).ok())
#define LOG(s) ABSL_LOG(s)
#define LOG_IF(s, c) ABSL_LOG_IF(s, c)
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define CHECK_OK(x) ABSL_CHECK_OK(x)

// ---------------------------------------------------------------------- flags
inline std::string UnparseFlagValue(const std::string& s) { return s; }
template<typename T> bool ShimParseFlag(string_view s, T* out, std::string* err);
inline bool ParseLogSeverity(string_view s, LogSeverity* out) {
  for (int i = 0; i < 4; ++i) if (EqualsIgnoreCase(s, LogSeverityName((LogSeverity)i)) || EqualsIgnoreCase(s, std::string("k") + LogSeverityName((LogSeverity)i))) { *out = (LogSeverity)i; return true; }
  int n; if (SimpleAtoi(s, &n)) { *out = (LogSeverity)n; return true; }
  return false;
}
class CommandLineFlag {
 public:
  virtual ~CommandLineFlag() = default;
  virtual bool ParseFrom(string_view s, std::string* err) = 0;
  virtual bool IsBool() const = 0;
  virtual std::string CurrentValue() const = 0;
  virtual std::string DefaultValue() const = 0;
  string_view Name() const { return name; }
  bool IsModified() const { return modified; }
  bool IsSpecifiedOnCommandLine() const { return specified; }
  std::string name, help; bool modified = false, specified = false;
};
inline std::map<std::string, CommandLineFlag*, std::less<>>& ShimFlags() { static auto* m = new std::map<std::string, CommandLineFlag*, std::less<>>(); return *m; }
template<typename T> class Flag : public CommandLineFlag {
 public:
  Flag(const char* n, T def, const char* h) : value(def), def_(def) { name = n; help = h; ShimFlags()[n] = this; }
  bool ParseFrom(string_view s, std::string* err) override {
    T v{};
    if (!ShimParseFlag(s, &v, err)) return false;
    value = v; modified = true; return true;
  }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  static std::string Str(const T& v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, std::string>) return v;
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) return StrJoin(v, ",");
    else if constexpr (std::is_same_v<T, std::optional<std::string>>) return v.value_or("");
    else if constexpr (requires { AbslUnparseFlag(v); }) return AbslUnparseFlag(v);
    else { std::ostringstream o; o << v; return o.str(); }
  }
  std::string CurrentValue() const override { return Str(value); }
  std::string DefaultValue() const override { return Str(def_); }
  T value;
 private:
  T def_;
};
template<typename T> bool ShimParseFlag(string_view s, T* out, std::string* err) {
  if constexpr (std::is_same_v<T, bool>) return SimpleAtob(s, out);
  else if constexpr (std::is_same_v<T, std::string>) { *out = std::string(s); return true; }
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { out->clear(); if (!s.empty()) *out = StrSplit(s, ','); return true; }
  else if constexpr (std::is_same_v<T, Duration>) return ParseDuration(s, out);
  else if constexpr (std::is_same_v<T, LogSeverity>) return ParseLogSeverity(s, out);
  else if constexpr (std::is_integral_v<T>) return SimpleAtoi(s, out);
  else if constexpr (std::is_floating_point_v<T>) { double d; if (!SimpleAtod(s, &d)) return false; *out = (T)d; return true; }
  else if constexpr (requires(T& t) { t.has_value(); }) { typename T::value_type v; if (!ShimParseFlag(s, &v, err)) return false; *out = v; return true; }
  else return AbslParseFlag(s, out, err);
}
template<typename T> T GetFlag(const Flag<T>& f) { return f.value; }
template<typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->value = T(v); f->modified = true; }
inline CommandLineFlag* FindCommandLineFlag(string_view n) { auto it = ShimFlags().find(n); return it == ShimFlags().end() ? nullptr : it->second; }
inline std::string& ShimUsage() { static auto* s = new std::string(); return *s; }
inline void SetProgramUsageMessage(string_view s) { ShimUsage() = std::string(s); }
inline string_view ProgramUsageMessage() { return ShimUsage(); }
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest;
  if (argc > 0) rest.push_back(argv[0]);
  auto die = [](const std::string& m) { std::cerr << "ERROR: " << m << std::endl; exit(1); };
  for (int i = 1; i < argc; ++i) {
    string_view a(argv[i]);
    if (a == "--") { for (++i; i < argc; ++i) rest.push_back(argv[i]); break; }
    if (a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    string_view n = a.substr(a.starts_with("--") ? 2 : 1), v; bool has = false;
    if (auto p = n.find('='); p != n.npos) { v = n.substr(p + 1); n = n.substr(0, p); has = true; }
    if (n == "help") { std::cout << ShimUsage() << "\n"; exit(1); }
    CommandLineFlag* f = FindCommandLineFlag(n);
    bool no = false;
    if (!f && n.starts_with("no") && (f = FindCommandLineFlag(n.substr(2))) && f->IsBool()) no = true;
    if (!f) { if (n == "stderrthreshold" || n == "minloglevel") { if (!has) ++i; continue; } die("Unknown command line flag '" + std::string(n) + "'"); }
    if (f->IsBool() && !has) v = no ? "false" : "true";
    else if (!has) { if (i + 1 >= argc) die("Missing the value for the flag '" + std::string(n) + "'"); v = argv[++i]; }
    std::string err;
    if (!f->ParseFrom(v, &err)) die("Illegal value '" + std::string(v) + "' specified for flag '" + std::string(n) + "'; " + err);
    f->specified = true;
  }
  return rest;
}
#define ABSL_FLAG(T, n, d, h) ::absl::Flag<T> FLAGS_##n(#n, []() -> T { T v = d; return v; }(), h)
#define ABSL_DECLARE_FLAG(T, n) extern ::absl::Flag<T> FLAGS_##n
#define ABSL_RETIRED_FLAG(T, n, d, h) static_assert(true)

// ------------------------------------------------------------------ functional
template<typename F> class FunctionRef;
template<typename R, typename... A> class FunctionRef<R(A...)> {
 public:
  template<typename F> requires(!std::is_same_v<std::remove_cvref_t<F>, FunctionRef>) FunctionRef(F&& f) : p_((void*)&f), c_([](void* p, A... a) -> R { return (*(std::remove_reference_t<F>*)p)(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(p_, std::forward<A>(a)...); }
 private:
  void* p_; R (*c_)(void*, A...);
};
template<typename F> using AnyInvocable = std::function<F>;
template<typename T> using remove_cvref_t = std::remove_cvref_t<T>;
}  // namespace absl
