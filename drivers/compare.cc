// Records comparisons of arithmetic values. argv: mode seed tier
#include "mbo/types/compare.h"
#include "trace.h"
#include <cmath>
#include <limits>
#include <string>
#include <string_view>
#include <algorithm>
using namespace mbo::types;
using vf::Rec; using vf::Rng;
static uint64_t g_seed; static bool g_thorough;

static std::string EncMag(int sign, int e, uint64_t m) {
  std::string s = "[0," + std::to_string(sign) + "," + std::to_string(e);
  for (int i = 0; i < 4; ++i) s += "," + std::to_string((m >> (16 * i)) & 0xFFFF);
  return s + "]";
}
template<typename T> std::string Enc(T v) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(v)) return "[2,0,0,0,0,0,0]";
    if (std::isinf(v)) return std::string("[1,") + (v > 0 ? "1" : "-1") + ",0,0,0,0,0]";
    if (v == 0) return "[0,0,0,0,0,0,0]";
    int e = 0;
    const long double f = std::frexp((long double)std::fabs(v), &e);
    return EncMag(v > 0 ? 1 : -1, e, (uint64_t)std::ldexp(f, 64));
  } else {
    const bool neg = v < T(0);
    uint64_t m = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
    if (!m) return "[0,0,0,0,0,0,0]";
    int e = 64;
    while (!(m >> 63)) { m <<= 1; --e; }
    return EncMag(neg ? -1 : 1, e, m);
  }
}
static int Ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename T> const char* Kind() { return std::is_same_v<T, bool> ? "bool" : std::is_floating_point_v<T> ? "float" : "int"; }
template<typename T> std::vector<T> Values() {
  using L = std::numeric_limits<T>;
  std::vector<T> v;
  auto add = [&](T x) { v.push_back(x); };
  Rng r(g_seed + sizeof(T) * 3 + L::is_signed);
  if constexpr (std::is_same_v<T, bool>) return {false, true};
  else if constexpr (std::is_floating_point_v<T>) {
    for (T x : {T(0), T(1), T(0.5), T(2), T(127), T(128), T(255), T(256), T(32768), T(65535), T(2147483647), T(2147483648.0), T(4294967295.0), T(4294967296.0), T(16777216), T(16777217), T(9007199254740993LL), T(9223372036854775807LL), T(18446744073709551615ULL), L::min(), L::denorm_min(), L::max(), L::infinity(), L::epsilon(), std::nextafter(T(1), T(2)), std::nextafter(T(2147483648.0), T(0)), std::nextafter(T(9223372036854775808.0), T(0)), std::nextafter(T(9223372036854775808.0), L::infinity()), std::nextafter(T(18446744073709551616.0), L::infinity()), std::nextafter(T(0.5), T(0))}) { add(x); add(-x); }
    add(L::quiet_NaN()); add(-L::quiet_NaN());
    for (int i = 0; i < (g_thorough ? 30 : 4); ++i) add(T((int64_t)r.next()) / T(1ULL << r.below(63)));
    return v;
  } else {
    for (int64_t x : {0LL, 1LL, 2LL, -1LL, -2LL, 127LL, 128LL, -128LL, -129LL, 255LL, 256LL, 32767LL, 32768LL, -32768LL, -32769LL, 65535LL, 65536LL, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 16777217LL, 9007199254740993LL, (long long)INT64_MAX, (long long)INT64_MIN}) if ((int64_t)(T)x == x && ((T)x < T(0)) == (x < 0)) add((T)x);
    add(L::min()); add(L::max()); add(T(L::max() - 1)); add(T(L::min() + 1)); add(T(L::max() / 2 + 1));
    for (int i = 0; i < (g_thorough ? 30 : 4); ++i) add((T)(r.next() >> r.below(64)));
    return v;
  }
}
template<typename L, typename R> void Pair() {
  const auto l = Values<L>(); const auto r = Values<R>();
  std::string ls = "[", rs = "[", c = "[";
  bool same = true;
  for (size_t i = 0; i < l.size(); ++i) ls += (i ? "," : "") + Enc(l[i]);
  for (size_t i = 0; i < r.size(); ++i) rs += (i ? "," : "") + Enc(r[i]);
  for (size_t i = 0; i < l.size(); ++i) {
    c += i ? ",[" : "[";
    for (size_t j = 0; j < r.size(); ++j) {
      const int o = Ord(CompareScalar<L, R>(l[i], r[j]));
      same = same && Ord(CompareArithmetic<L, R>(l[i], r[j])) == o;
      if constexpr (std::is_integral_v<L> && std::is_integral_v<R>) same = same && Ord(CompareIntegral<L, R>(l[i], r[j])) == o;
      if constexpr (std::is_floating_point_v<L> && std::is_same_v<L, R>) same = same && Ord(CompareFloat<L>(l[i], r[j])) == o;
      c += (j ? "," : "") + std::to_string(o);
    }
    c += "]";
  }
  Rec("cmp").str("lt", Kind<L>()).str("rt", Kind<R>()).raw("l", ls + "]").raw("r", rs + "]").raw("c", c + "]").boolean("same", same).str("types", __PRETTY_FUNCTION__).emit();
}
template<typename L, typename... R> void Row() { (Pair<L, R>(), ...); }
#define TYPES bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t, float, double, long double
template<typename... L> void All() { (Row<L, TYPES>(), ...); }

template<typename T, typename U> void LessPair() {  // CompareLess<T> between T and U, both ways
  const auto l = Values<T>(); const auto r = Values<U>();
  const CompareLess<T> less;
  std::string ls = "[", rs = "[", c = "[";
  for (size_t i = 0; i < l.size(); ++i) ls += (i ? "," : "") + Enc(l[i]);
  for (size_t i = 0; i < r.size(); ++i) rs += (i ? "," : "") + Enc(r[i]);
  for (size_t i = 0; i < l.size(); ++i) {
    c += i ? ",[" : "[";
    for (size_t j = 0; j < r.size(); ++j) {
      const auto a = less.Compare(l[i], r[j]), b = less.Compare(r[j], l[i]);
      // bit 0: l<r, bit 1: r<l, bit 2: Compare says less, bit 3: greater, bits 4, 5: the reverse Compare, bit 6/7: equal
      c += (j ? "," : "") + std::to_string((less(l[i], r[j]) ? 1 : 0) + (less(r[j], l[i]) ? 2 : 0) + (a < 0 ? 4 : 0) + (a > 0 ? 8 : 0) + (b < 0 ? 16 : 0) + (b > 0 ? 32 : 0) + (a == 0 ? 64 : 0) + (b == 0 ? 128 : 0));
    }
    c += "]";
  }
  Rec("less").raw("l", ls + "]").raw("r", rs + "]").raw("c", c + "]").str("types", __PRETTY_FUNCTION__).emit();
}
template<typename T, typename U> void LessStr() {
  std::vector<std::string> s{"", "a", "b", "ab", "aa", "ba", "abc", "\x80", "a\x80", "\x7f", "\xff", "A", "aB"};
  Rng r(g_seed);
  if constexpr (!std::is_same_v<T, const char*> && !std::is_same_v<U, const char*>) { s.push_back(std::string(1, '\0')); s.push_back(std::string("a\0", 2)); s.push_back(std::string("a\0b", 3)); }
  for (int i = 0; i < (g_thorough ? 60 : 12); ++i) { std::string x; for (size_t n = r.below(6); n; --n) x += "ab\x81\xfe"[r.below(4)]; s.push_back(x); }
  std::sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  const CompareLess<T> less;
  std::string c = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    c += i ? ",[" : "[";
    for (size_t j = 0; j < s.size(); ++j) {
      auto mk = []<typename X>(const std::string& v, X*) { if constexpr (std::is_same_v<X, const char*>) return v.c_str(); else return X(v); };
      const T x = mk(s[i], (T*)nullptr); const U y = mk(s[j], (U*)nullptr);
      const auto a = less.Compare(x, y), b = less.Compare(y, x);
      c += (j ? "," : "") + std::to_string((less(x, y) ? 1 : 0) + (less(y, x) ? 2 : 0) + (a < 0 ? 4 : 0) + (a > 0 ? 8 : 0) + (b < 0 ? 16 : 0) + (b > 0 ? 32 : 0) + (a == 0 ? 64 : 0) + (b == 0 ? 128 : 0));
    }
    c += "]";
  }
  Rec("lessstr").bytess("s", s).raw("c", c + "]").str("types", __PRETTY_FUNCTION__).emit();
}
static constexpr bool CtLess() {
  const CompareLess<int> l; const CompareLess<std::string_view> s;
  return l(1, 2) && !l(2, 1) && !l(1, 1) && l(1, 2L) && l(-5L, 2) && l.Compare(3, 2) > 0 && s("a", "b") && !s("b", "ab") && s.Compare("b", "a") > 0;
}
int main(int argc, char** argv) {
  g_seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  g_thorough = argc > 3 && std::string(argv[3]) == "thorough";
  All<TYPES>();
  LessPair<int, int>(); LessPair<long, long>(); LessPair<unsigned, unsigned>(); LessPair<int, long>(); LessPair<int, short>(); LessPair<long, int>(); LessPair<unsigned, unsigned short>(); LessPair<unsigned long, unsigned>(); LessPair<double, double>(); LessPair<double, float>(); LessPair<float, double>(); LessPair<long double, double>(); LessPair<double, int>(); LessPair<char, char>(); LessPair<signed char, int>(); LessPair<bool, bool>();
  LessStr<std::string, std::string>(); LessStr<std::string, std::string_view>(); LessStr<std::string_view, std::string>(); LessStr<std::string, const char*>(); LessStr<std::string_view, const char*>();
  {
    int a[40];
    std::vector<size_t> c;
    for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) c.push_back(Ord(CompareScalar(&a[i], &a[j])) + 1);
    Rec("ptr").num("n", 40).nums("c", c).emit();
  }
  Rec("weak").nums("c", std::vector<int>{Ord(WeakToStrong(std::weak_ordering::less)), Ord(WeakToStrong(std::weak_ordering::equivalent)), Ord(WeakToStrong(std::weak_ordering::greater))}).emit();
#ifdef VF_NO_CT
  const bool ct = CtLess();
#else
  constexpr bool ct = CtLess();
#endif
  Rec("flags").nums("got", std::vector<int>{ct, IsCompareLess<CompareLess<int>>, IsCompareLess<std::less<int>>, IsCompareLess<int>, IsStdLess<std::less<int>>, IsStdLess<CompareLess<int>>, IsStdLess<std::greater<int>>}).nums("want", std::vector<int>{1, 1, 0, 0, 1, 0, 0}).emit();
  return 0;
}
