// Structs with random fields: printed in every format, with random formats of their own for their fields, compared,
// hashed and built. The texts are judged by spec/Stringify.tla.
#include <array>
#include <cmath>
#include <compare>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <variant>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mbo/container/limited_vector.h"
#include "mbo/types/extend.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/stringify.h"
#include "mbo/types/stringify_ostream.h"
#include "trace.h"

using mbo::types::Stringify;
using mbo::types::StringifyFieldInfo;
using mbo::types::StringifyFieldInfoString;
using mbo::types::StringifyFieldOptions;
using mbo::types::StringifyOptions;
using mbo::types::StringifyRootOptions;
using vf::Rec;
using vf::Rng;
using std::string;
using std::string_view;
using Json = string;
static Json B(string_view s) { return Rec::arrayed(s); }

// ------------------------------------------------------------------- formats
static std::deque<string> g_pool;
static string_view Keep(string s) { return g_pool.emplace_back(std::move(s)); }
static string_view Bit(Rng& r) {
  static const std::vector<string_view> v = {"", "", ";", "<", ">", "=", " ", "\"", "x", "->", "[", "]", "(", "), ", "'", "\\", "|"};
  return r.of(v);
}
static const StringifyFieldInfoString kFirstLetter = [](const StringifyFieldInfo& f) -> string_view { return f.name.empty() ? string_view("#") : f.name.substr(0, 1); };
static const char* Bool(bool b) { return b ? "true" : "false"; }
struct Part { StringifyOptions o; Json j; };
// Every group of the format is set with the given chance (in percent).
static Part RandPart(Rng& r, int pct, bool reckless) {
  Part p;
  auto on = [&] { return r.chance(pct); };
  p.j = "{\"fmt\":";
  if (on()) {
    StringifyOptions::Format f;
    if (r.chance(30)) { f.message_prefix = Bit(r); f.message_suffix = Bit(r); }
    if (r.chance(30)) f.field_indent = r.chance(50) ? "  " : ".";
    if (r.chance(50)) f.key_value_separator = Bit(r);
    if (r.chance(50)) f.field_separator = Bit(r);
    if (r.chance(50)) { f.pointer_prefix = Bit(r); f.pointer_suffix = Bit(r); }
    if (r.chance(50)) { f.smart_ptr_prefix = Bit(r); f.smart_ptr_suffix = Bit(r); }
    if (r.chance(50)) { f.optional_prefix = Bit(r); f.optional_suffix = Bit(r); }
    if (r.chance(50)) { f.structure_prefix = Bit(r); f.structure_suffix = Bit(r); }
    if (r.chance(50)) { f.container_prefix = Bit(r); f.container_suffix = Bit(r); }
    if (r.chance(50)) f.char_delim = Bit(r);
    if (r.chance(50)) f.string_delim = Bit(r);
    p.j += "{\"set\":true,\"mp\":" + B(f.message_prefix) + ",\"ms\":" + B(f.message_suffix) + ",\"ind\":" + B(f.field_indent) + ",\"kv\":" + B(f.key_value_separator) + ",\"sep\":" + B(f.field_separator)
           + ",\"pp\":" + B(f.pointer_prefix) + ",\"ps\":" + B(f.pointer_suffix) + ",\"mpp\":" + B(f.smart_ptr_prefix) + ",\"mps\":" + B(f.smart_ptr_suffix) + ",\"opp\":" + B(f.optional_prefix) + ",\"ops\":" + B(f.optional_suffix)
           + ",\"tp\":" + B(f.structure_prefix) + ",\"ts\":" + B(f.structure_suffix) + ",\"cp\":" + B(f.container_prefix) + ",\"cs\":" + B(f.container_suffix) + ",\"cd\":" + B(f.char_delim) + ",\"sd\":" + B(f.string_delim) + "}";
    p.o.format.emplace(f);
  } else p.j += "{\"set\":false}";
  p.j += ",\"fc\":";
  if (on()) {
    StringifyOptions::FieldControl f;
    f.suppress = r.chance(reckless ? 40 : 15); f.suppress_nullptr = r.chance(30); f.suppress_nullopt = r.chance(30); f.suppress_disabled = r.chance(30);
    if (r.chance(50)) f.field_disabled = Bit(r);
    p.j += string("{\"set\":true,\"sup\":") + Bool(f.suppress) + ",\"supn\":" + Bool(f.suppress_nullptr) + ",\"supo\":" + Bool(f.suppress_nullopt) + ",\"supd\":" + Bool(f.suppress_disabled) + ",\"dis\":" + B(f.field_disabled) + "}";
    p.o.field_control.emplace(f);
  } else p.j += "{\"set\":false}";
  p.j += ",\"kc\":";
  if (on()) {
    StringifyOptions::KeyControl k;
    const int mode = (int)r.below(3);
    k.key_mode = mode == 0 ? StringifyOptions::KeyMode::kNone : mode == 1 ? StringifyOptions::KeyMode::kNormal : StringifyOptions::KeyMode::kNumericFallback;
    if (r.chance(50)) k.key_prefix = Bit(r);
    if (r.chance(50)) k.key_suffix = Bit(r);
    p.j += "{\"set\":true,\"mode\":" + std::to_string(mode) + ",\"kp\":" + B(k.key_prefix) + ",\"ks\":" + B(k.key_suffix) + "}";
    p.o.key_control.emplace(k);
  } else p.j += "{\"set\":false}";
  p.j += ",\"ko\":";
  if (on()) {
    StringifyOptions::KeyOverrides k;
    const int kind = (int)r.below(3);
    static const std::vector<string_view> names = {"", "id", "a \"b\"", "\n", "0"};
    const string_view name = r.of(names);
    if (kind == 1) k.key_use_name = name;
    if (kind == 2) k.key_use_name = &kFirstLetter;
    p.j += "{\"set\":true,\"kind\":" + std::to_string(kind) + ",\"name\":" + B(name) + "}";
    p.o.key_overrides.emplace(k);
  } else p.j += "{\"set\":false}";
  p.j += ",\"vc\":";
  if (on()) {
    StringifyOptions::ValueControl c;
    c.other_types_direct = r.chance(50);
    const int esc = (int)r.below(4);
    using E = StringifyOptions::EscapeMode;
    c.escape_mode = esc == 0 ? E::kNone : esc == 1 ? E::kCEscape : esc == 2 ? E::kCHexEscape : E::kJsonEscape;
    if (r.chance(30)) { c.nullptr_t_str = Bit(r); c.nullptr_v_str = Bit(r); c.nullopt_str = Bit(r); }
    if (r.chance(40)) c.container_max_len = r.below(4);
    if (r.chance(40)) c.str_max_length = r.below(5);
    if (r.chance(40)) c.str_cutoff_suffix = Bit(r);
    c.float_exact = r.chance(50);
    auto lim = [](size_t n) { return n > 1000 ? string("-1") : std::to_string(n); };
    p.j += string("{\"set\":true,\"direct\":") + Bool(c.other_types_direct) + ",\"esc\":" + std::to_string(esc) + ",\"nt\":" + B(c.nullptr_t_str) + ",\"nv\":" + B(c.nullptr_v_str) + ",\"no\":" + B(c.nullopt_str)
           + ",\"max\":" + lim(c.container_max_len) + ",\"smax\":" + lim(c.str_max_length) + ",\"cut\":" + B(c.str_cutoff_suffix) + ",\"exact\":" + Bool(c.float_exact) + "}";
    p.o.value_control.emplace(c);
  } else p.j += "{\"set\":false}";
  p.j += ",\"vo\":";
  if (on()) {
    StringifyOptions::ValueOverrides v;
    if (r.chance(50)) v.replacement_str = r.chance(50) ? "<redacted>" : "*";
    if (r.chance(50)) v.replacement_other = r.chance(50) ? "hidden" : "0";
    p.j += "{\"set\":true,\"rs\":" + B(v.replacement_str) + ",\"ro\":" + B(v.replacement_other) + "}";
    p.o.value_overrides.emplace(v);
  } else p.j += "{\"set\":false}";
  p.j += ",\"sp\":";
  if (on()) {
    StringifyOptions::Special s;
    const int keyed = (int)r.below(3);
    using K = StringifyOptions::StrKeyed;
    s.str_keyed = keyed == 0 ? K::kNormal : keyed == 1 ? K::kFirstIsName : K::kFirstIsNameOrdered;
    const int pk = (int)r.below(3);
    if (pk == 0) s.pair_keys = std::nullopt;
    if (pk == 1) s.pair_keys = std::pair<string_view, string_view>{"k", r.chance(50) ? "v" : ""};
    p.j += "{\"set\":true,\"keyed\":" + std::to_string(keyed) + ",\"pk\":" + Bool(pk != 0) + ",\"k1\":" + B(s.pair_keys ? s.pair_keys->first : "") + ",\"k2\":" + B(s.pair_keys ? s.pair_keys->second : "") + "}";
    p.o.special.emplace(s);
  } else p.j += "{\"set\":false}";
  p.j += "}";
  return p;
}
static const Json kUnset = "{\"fmt\":{\"set\":false},\"fc\":{\"set\":false},\"kc\":{\"set\":false},\"ko\":{\"set\":false},\"vc\":{\"set\":false},\"vo\":{\"set\":false},\"sp\":{\"set\":false}}";

// ------------------------------------------- field controls, one per field of a kind of struct
struct Own {
  StringifyOptions o, i;
  std::unique_ptr<StringifyFieldOptions> both;
  Json j;
};
constexpr int kTags = 7, kMaxFields = 4;
static Own g_own[kTags][kMaxFields];
static std::vector<string> g_withnames;  // names for StringifyWithFieldNames
static std::vector<string> g_names;      // names for MboTypesStringifyFieldNames
static bool g_used[kTags];
static void NewOwn(Rng& r) {
  g_withnames.clear();
  for (size_t n = r.below(5); n > 0; --n) g_withnames.push_back(r.chance(20) ? "" : string(r.of(std::vector<string_view>{"left", "right", "\"q\"", "x\ny"})));
  g_names.clear();
  for (size_t n = r.below(5); n > 0; --n) g_names.push_back(r.chance(20) ? "" : string(r.of(std::vector<string_view>{"one", "two", "a", "back\\slash", "\"q\"", "\t"})));
  for (int t = 1; t < kTags; ++t) {
    g_used[t] = false;
    for (int k = 0; k < kMaxFields; ++k) {
      Own& w = g_own[t][k];
      if (t == 6) {
        const bool has = (size_t)k < g_withnames.size();
        w.j = "{\"from\":true,\"two\":false,\"o\":" + kUnset.substr(0, kUnset.find("\"ko\"")) + "\"ko\":"
              + (has ? "{\"set\":true,\"kind\":1,\"name\":" + B(g_withnames[k]) + "}" : string("{\"set\":false}")) + kUnset.substr(kUnset.find(",\"vc\"")) + "}";
        continue;
      }
      const bool two = t == 3 || t == 4;
      Part p = RandPart(r, r.chance(50) ? 20 : t == 2 && r.chance(50) ? 100 : r.chance(20) ? 60 : 0, false);
      Part q = two ? RandPart(r, r.chance(50) ? 20 : t == 4 && r.chance(50) ? 100 : 0, false) : Part{};
      w.both.reset();
      w.o = p.o; w.i = q.o;
      if (two && r.chance(20)) { w.both.reset(new StringifyFieldOptions(std::as_const(w.o))); q.j = p.j; }
      else if (two) w.both.reset(new StringifyFieldOptions(std::as_const(w.o), std::as_const(w.i)));
      w.j = string("{\"from\":") + Bool(t == 5) + ",\"two\":" + Bool(two) + ",\"o\":" + p.j + (two ? ",\"i\":" + q.j : "") + "}";
    }
  }
}

// ------------------------------------------------------------- kinds of structs
#define VF_NONE(S)
#define VF_OPT1(S) friend StringifyOptions MboTypesStringifyOptions(const S&, const StringifyFieldInfo& f) { return g_own[1][f.idx].o; }
#define VF_OPT2(S) friend const StringifyOptions& MboTypesStringifyOptions(const S&, const StringifyFieldInfo& f) { return g_own[2][f.idx].o; }
#define VF_OPT3(S) friend StringifyFieldOptions MboTypesStringifyOptions(const S&, const StringifyFieldInfo& f) { return std::as_const(*g_own[3][f.idx].both); }
#define VF_OPT4(S) friend const StringifyFieldOptions& MboTypesStringifyOptions(const S&, const StringifyFieldInfo& f) { return std::as_const(*g_own[4][f.idx].both); }
#define VF_OPT5(S) friend StringifyOptions MboTypesStringifyOptions(const S&, const StringifyFieldInfo& f) { return From(f.options.outer, g_own[5][f.idx].o); }
#define VF_OPT6(S) friend StringifyOptions MboTypesStringifyOptions(const S& v, const StringifyFieldInfo& f) { return mbo::types::StringifyWithFieldNames(g_withnames, mbo::types::StringifyNameHandling::kOverwrite)(v, f); }
#define VF_NAMES(S) friend const std::vector<string>& MboTypesStringifyFieldNames(const S&) { return g_names; }
#define VF_NAMED(S) VF_NAMES(S) VF_OPT1(S)
#define VF_NO(S) using MboTypesStringifyDoNotPrintFieldNames = void;
#define VF_CONV(S) static string MboTypesStringifyConvert(std::size_t idx, const S&, const string& v) { return std::to_string(idx) + v; }
#define VF_EXT(S) : mbo::types::Extend<S>
#define VF_NOEXT(S)
#define VF_KIND(N, HEAD, BODY, ...) \
  template<typename... F> struct N; \
  template<> struct N<> HEAD(N<>) { static constexpr int kN = 0; __VA_ARGS__ BODY(N) }; \
  template<typename A> struct N<A> HEAD(VF_ID(N<A>)) { static constexpr int kN = 1; __VA_ARGS__ A a; BODY(N) }; \
  template<typename A, typename B_> struct N<A, B_> HEAD(VF_ID(N<A, B_>)) { static constexpr int kN = 2; __VA_ARGS__ A a; B_ b; BODY(N) }; \
  template<typename A, typename B_, typename C> struct N<A, B_, C> HEAD(VF_ID(N<A, B_, C>)) { static constexpr int kN = 3; __VA_ARGS__ A a; B_ b; C c; BODY(N) }; \
  template<typename A, typename B_, typename C, typename D> struct N<A, B_, C, D> HEAD(VF_ID(N<A, B_, C, D>)) { static constexpr int kN = 4; __VA_ARGS__ A a; B_ b; C c; D d; BODY(N) }; \
  template<typename A, typename B_, typename C, typename D, typename F, typename G, typename H, typename I, typename J, typename K, typename L, typename M> struct N<A, B_, C, D, F, G, H, I, J, K, L, M> HEAD(VF_ID(N<A, B_, C, D, F, G, H, I, J, K, L, M>)) { static constexpr int kN = 12; __VA_ARGS__ A a; B_ b; C c; D d; F e; G f; H g; I h; J i; K j; L k; M l; BODY(N) };
#define VF_ID(...) __VA_ARGS__
static StringifyOptions From(const StringifyOptions& base, const StringifyOptions& own) {
  StringifyOptions r = base;
  if (own.format.has_value()) r.format.emplace(*own.format);
  if (own.field_control.has_value()) r.field_control.emplace(*own.field_control);
  if (own.key_control.has_value()) r.key_control.emplace(*own.key_control);
  if (own.key_overrides.has_value()) r.key_overrides.emplace(*own.key_overrides);
  if (own.value_control.has_value()) r.value_control.emplace(*own.value_control);
  if (own.value_overrides.has_value()) r.value_overrides.emplace(*own.value_overrides);
  if (own.special.has_value()) r.special.emplace(*own.special);
  return r;
}
#define VF_TAG(t, names, no) static constexpr int kTag = t; static constexpr bool kGiven = names, kNo = no, kConv = false;
VF_KIND(E0, VF_EXT, VF_NONE, VF_TAG(0, false, false))
VF_KIND(E1, VF_EXT, VF_OPT1, VF_TAG(1, false, false))
VF_KIND(E2, VF_EXT, VF_OPT2, VF_TAG(2, false, false))
VF_KIND(E3, VF_EXT, VF_OPT3, VF_TAG(3, false, false))
VF_KIND(E4, VF_EXT, VF_OPT4, VF_TAG(4, false, false))
VF_KIND(E5, VF_EXT, VF_OPT5, VF_TAG(5, false, false))
VF_KIND(E6, VF_EXT, VF_OPT6, VF_TAG(6, false, false))
VF_KIND(En, VF_EXT, VF_NAMES, VF_TAG(0, true, false))
VF_KIND(Em, VF_EXT, VF_NAMED, VF_TAG(1, true, false))
VF_KIND(Eo, VF_EXT, VF_NO, VF_TAG(0, false, true))
VF_KIND(Ec, VF_EXT, VF_CONV, static constexpr int kTag = 0; static constexpr bool kGiven = false, kNo = false, kConv = true;)
VF_KIND(Pl, VF_NOEXT, VF_NONE, VF_TAG(0, false, false))
VF_KIND(Pn, VF_NOEXT, VF_NAMES, VF_TAG(0, true, false))
VF_KIND(Po, VF_NOEXT, VF_OPT3, VF_TAG(3, false, false))

struct Dis { using MboTypesStringifyDisable = void; int x = 1; };
struct Stamp { string s; template<typename S> friend void AbslStringify(S& k, const Stamp& v) { k.Append(v.s); } auto operator<=>(const Stamp&) const = default; };
class Texty { public: string s; operator string_view() const { return s; } Texty() = default; Texty(const Texty&) = default; private: int hidden = 0; };
class Holder { public: Holder() = default; std::vector<int> v; friend const std::vector<int>& MboTypesStringifyValueAccess(const Holder& h, const StringifyFieldOptions&) { return h.v; } private: int hidden_ = 0; };
enum class Col { kRed = -2, kBlue = 7 };
template<typename T> struct Ref { static std::deque<T>& Pool() { static std::deque<T> p; return p; } };

// --------------------------------------------------------- random values, their meaning
template<typename T> struct Is : std::false_type {};
template<typename T> concept Aggr = requires { T::kN; T::kTag; };
static const std::vector<string> kTexts = {"", "a", "b", "ab", "abcdef", "\"", "'", "\\", "\n\t\r", string("\0x", 2), "\x01" "12g", "\x7f" "a\xc3\xa4", "{,}", "\x1f\x1f" "fF"};

template<typename T> struct Ops;
template<typename T> void Gen(Rng& r, T& v, int d) { Ops<T>::Make(r, v, d); }
template<typename T> Json V(const T& v) { return Ops<T>::Val(v); }
static Json J(const char* t, Json more = "") { return string("{\"t\":\"") + t + "\"" + more + "}"; }
static Json Jb(const char* t, string_view b, Json more = "") { return J(t, ",\"b\":" + B(b) + more); }
static Json Jc(const char* t, const Json& c, Json more = "") { return J(t, ",\"c\":[" + c + "]" + more); }
template<typename T> requires(std::is_integral_v<T>) struct Ops<T> {
  static void Make(Rng& r, T& v, int) {
    if constexpr (std::same_as<T, bool>) v = r.chance(50);
    else if constexpr (std::same_as<T, char> || std::same_as<T, unsigned char>) v = r.chance(40) ? (T)r.below(256) : (T)r.of(std::vector<char>{'\'', '"', 'a', 'b', '\\', '\n', 0});
    else v = r.chance(15) ? std::numeric_limits<T>::min() : r.chance(15) ? std::numeric_limits<T>::max() : (T)((int)r.below(7) - 3);
  }
  static Json Val(T v) {
    if constexpr (std::same_as<T, bool>) return Jb("num", v ? "true" : "false", ",\"q\":" + std::to_string(v));
    else if constexpr (std::same_as<T, char> || std::same_as<T, unsigned char>) return Jb("chr", string(1, (char)v), ",\"sg\":" + std::to_string(std::is_signed_v<T> ? 256 : 0));
    else return Jb("num", std::to_string(v), ",\"q\":" + (v > 1000 ? (v == std::numeric_limits<T>::max() ? "2000000000" : v == std::numeric_limits<T>::max() - 1 ? "1999999999" : "1999999998")
                                                       : v < (T)-1000 && std::is_signed_v<T> && v < 0 ? "-2000000000" : std::to_string((int)v)));
  }
};
template<typename T> requires(std::is_floating_point_v<T>) struct Ops<T> {
  static inline const std::vector<T> kOdd = {-std::numeric_limits<T>::infinity(), std::numeric_limits<T>::lowest(), (T)-1e30, (T)-0.1, -std::numeric_limits<T>::min(), (T)-0.0, std::numeric_limits<T>::denorm_min(), (T)1 / 3, (T)123456789, (T)1e20,
                                             std::numeric_limits<T>::max(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()};
  static void Make(Rng& r, T& v, int) { v = r.chance(40) ? r.of(kOdd) : (T)((int)r.below(r.chance(50) ? 9 : 7999) - 4) / 4; }
  static Json Val(T v) {
    const bool odd = !std::isfinite(v) || std::fabs(v) > 2000 || v * 4 != std::floor(v * 4) || (v == 0 && std::signbit(v));
    if (!odd) return J("flt", ",\"b\":[],\"x\":[],\"nan\":false,\"q\":" + std::to_string((int)(v * 4)));
    char b[64], x[64] = "";
    snprintf(b, sizeof b, "%g", v);
    if (std::isfinite(v)) {
      for (int p = 6; p < 60; ++p) {
        snprintf(x, sizeof x, "%.*g", p, v);
        if (std::same_as<T, float> ? strtof(x, nullptr) == v : strtod(x, nullptr) == v) break;
      }
    }
    // rank among all the values made
    const int q = v < -2000 ? (std::isinf(v) ? -1000000 : v == std::numeric_limits<T>::lowest() ? -900000 : -800000) : v > 2000 ? (std::isinf(v) ? 1000000 : v == std::numeric_limits<T>::max() ? 900000 : v > (T)1e10 ? 800000 : 700000) : 0;
    // (small odd ones lie between quarters: tell them apart in eighths of thousandths)
    return J("flt", ",\"b\":" + B(b) + ",\"x\":" + B(x) + ",\"nan\":" + Bool(std::isnan(v)) + ",\"q\":" + std::to_string(q));
  }
};
// what has odd small parts is not compared by the driver
template<typename T> bool Ranked(const T&) { return true; }
inline bool RankedF(double v) { return !std::isfinite(v) || std::fabs(v) > 2000 || v * 4 == std::floor(v * 4); }
template<> inline bool Ranked(const double& v) { return RankedF(v); }
template<> inline bool Ranked(const float& v) { return RankedF(v); }

template<> struct Ops<string> {
  static void Make(Rng& r, string& v, int) { v = r.of(kTexts); }
  static Json Val(const string& v) { return Jb("str", v); }
};
template<> struct Ops<string_view> {
  static void Make(Rng& r, string_view& v, int) { v = r.of(kTexts); }
  static Json Val(const string_view& v) { return Jb("str", v); }
};
template<> struct Ops<Texty> {
  static void Make(Rng& r, Texty& v, int) { v.s = r.of(kTexts); }
  static Json Val(const Texty& v) { return Jb("str", v.s); }
};
template<> struct Ops<Stamp> {
  static void Make(Rng& r, Stamp& v, int) { v.s = r.of(kTexts); }
  static Json Val(const Stamp& v) { return Jb("oth", v.s); }
};
template<> struct Ops<Col> {
  static void Make(Rng& r, Col& v, int) { v = r.chance(50) ? Col::kRed : Col::kBlue; }
  static Json Val(Col v) { return Jb("oth", std::to_string((int)v)); }
};
template<> struct Ops<std::nullptr_t> {
  static void Make(Rng&, std::nullptr_t&, int) {}
  static Json Val(std::nullptr_t) { return Jb("null", "t"); }
};
template<> struct Ops<Dis> {
  static void Make(Rng&, Dis&, int) {}
  static Json Val(const Dis&) { return J("dis"); }
};
template<> struct Ops<std::monostate> {
  static void Make(Rng&, std::monostate&, int) {}
  static Json Val(std::monostate) { return J("struct", ",\"c\":[],\"n\":[],\"nn\":false,\"ty\":0"); }
};
template<> struct Ops<Holder> {
  static void Make(Rng& r, Holder& v, int d) { Gen(r, v.v, d); }
  static Json Val(const Holder& v) { return Jc("acc", V(v.v)); }
};
template<typename T> struct Ops<std::optional<T>> {
  static void Make(Rng& r, std::optional<T>& v, int d) { if (r.chance(30)) v.reset(); else Gen(r, v.emplace(), d); }
  static Json Val(const std::optional<T>& v) { return v ? Jc("opt", V(*v)) : J("nopt", ",\"c\":[]"); }
};
template<typename T> struct Ops<std::unique_ptr<T>> {
  static void Make(Rng& r, std::unique_ptr<T>& v, int d) { if (r.chance(30)) v.reset(); else { v = std::make_unique<T>(); Gen(r, *v, d); } }
  static Json Val(const std::unique_ptr<T>& v) { return v ? Jc("smart", V(*v)) : Jb("null", ""); }
};
template<typename T> struct Ops<std::shared_ptr<T>> {
  static void Make(Rng& r, std::shared_ptr<T>& v, int d) { if (r.chance(30)) v.reset(); else { v = std::make_shared<T>(); Gen(r, *v, d); } }
  static Json Val(const std::shared_ptr<T>& v) { return v ? Jc("smart", V(*v)) : Jb("null", ""); }
};
template<typename T> T& NewRef(Rng& r, int d) { T& t = Ref<T>::Pool().emplace_back(); Gen(r, t, d); return t; }
template<typename T> struct Ops<T*> {
  static void Make(Rng& r, T*& v, int d) { v = r.chance(30) ? nullptr : &NewRef<std::remove_const_t<T>>(r, d); }
  static Json Val(T* v) { return v ? Jc("ptr", V(*v)) : Jb("null", ""); }
};
template<typename T> struct Ops<std::reference_wrapper<T>> {
  static Json Val(const std::reference_wrapper<T>& v) { return Jc("ref", V(v.get())); }
};
template<typename T> struct Ops<mbo::types::OptionalRef<T>> {
  static void Make(Rng& r, mbo::types::OptionalRef<T>& v, int d) { if (r.chance(30)) v.reset(); else v.set_ref(NewRef<std::remove_const_t<T>>(r, d)); }
  static Json Val(const mbo::types::OptionalRef<T>& v) { return v.has_value() ? Jc("ref", V(std::remove_const_t<T>(*v))) : J("noref"); }
};
template<typename T> struct Ops<mbo::types::OptionalDataOrRef<T>> {
  static void Make(Rng& r, mbo::types::OptionalDataOrRef<T>& v, int d) { if (r.chance(30)) v.reset(); else if (r.chance(50)) v.set_ref(NewRef<T>(r, d)); else { T t; Gen(r, t, d); v = std::move(t); } }
  static Json Val(const mbo::types::OptionalDataOrRef<T>& v) { return v.has_value() ? Jc("ref", V(T(*v))) : J("noref"); }
};
template<typename T> concept Keyed = requires(const T& c) { requires std::is_convertible_v<decltype(c.begin()->first), string_view>; c.size(); };
template<typename T> concept Seq = !Keyed<T> && !std::is_convertible_v<T, string_view> && requires(T& c) { c.begin(); c.end(); typename T::value_type; };
template<Keyed T> struct Ops<T> {
  static void Make(Rng& r, T& v, int d) {
    v.clear();
    using P = typename T::value_type;
    for (size_t n = r.below(d > 0 ? 4 : 2); n > 0; --n) { std::pair<std::remove_const_t<typename P::first_type>, typename P::second_type> p; Gen(r, p.first, d - 1); Gen(r, p.second, d - 1); v.insert(v.end(), std::move(p)); }
  }
  static Json Val(const T& v) {
    Json c, n;
    for (const auto& [k, x] : v) { if (!c.empty()) { c += ','; n += ','; } c += V(x); n += B(string_view(k)); }
    return Jc("map", c, ",\"n\":[" + n + "]");
  }
};
template<Seq T> struct Ops<T> {
  static void Make(Rng& r, T& v, int d) {
    if constexpr (requires { v.clear(); }) {
      v.clear();
      for (size_t n = r.below(d > 0 ? 4 : 2); n > 0; --n) {
        if constexpr (requires { v.push_back({}); }) { typename T::value_type x{}; Gen(r, x, d - 1); v.push_back(std::move(x)); }
        else if constexpr (requires { typename T::mapped_type; }) { std::pair<typename T::key_type, typename T::mapped_type> p; Gen(r, p.first, d - 1); Gen(r, p.second, d - 1); v.insert(std::move(p)); }
        else { typename T::value_type x{}; Gen(r, x, d - 1); v.insert(std::move(x)); }
      }
    } else for (auto& x : v) Gen(r, x, d - 1);
  }
  static Json Val(const T& v) {
    Json c;
    for (const auto& x : v) { if (!c.empty()) c += ','; c += V<std::remove_cvref_t<typename T::value_type>>(x); }
    return Jc("seq", c);
  }
};
template<typename A, typename B_> struct Ops<std::pair<A, B_>> {
  static void Make(Rng& r, std::pair<A, B_>& v, int d) { Gen(r, const_cast<std::remove_const_t<A>&>(v.first), d - 1); Gen(r, v.second, d - 1); }
  static Json Val(const std::pair<A, B_>& v) { return Jc("pair", V<std::remove_const_t<A>>(v.first) + "," + V<B_>(v.second)); }
};
template<typename... T> struct Ops<std::variant<T...>> {
  static void Make(Rng& r, std::variant<T...>& v, int d) {
    size_t pick = r.below(sizeof...(T)), k = 0;
    auto one = [&]<typename X>(X*) { if (k++ == pick) { X x{}; Gen(r, x, d); v = std::move(x); } };
    (one((T*)nullptr), ...);
  }
  static Json Val(const std::variant<T...>& v) { return std::visit([&](const auto& x) { return Jc("var", V(x), ",\"q\":" + std::to_string(v.index())); }, v); }
};
template<typename T, typename F> auto With(T& v, F f) {
  if constexpr (T::kN == 0) return f();
  else if constexpr (T::kN == 1) return f(v.a);
  else if constexpr (T::kN == 2) return f(v.a, v.b);
  else if constexpr (T::kN == 3) return f(v.a, v.b, v.c);
  else if constexpr (T::kN == 4) return f(v.a, v.b, v.c, v.d);
  else return f(v.a, v.b, v.c, v.d, v.e, v.f, v.g, v.h, v.i, v.j, v.k, v.l);
}
template<Aggr T> struct Ops<T> {
  static void Make(Rng& r, T& v, int d) { With(v, [&](auto&... f) { (Gen(r, f, d - 1), ...); return 0; }); }
  static Json Val(const T& v) {
    Json c;
    size_t idx = 0;
    auto one = [&]<typename X>(const X& x) {
      if (idx > 0) c += ',';
      if constexpr (T::kConv && std::same_as<X, string>) c += V(std::to_string(idx) + x); else c += V(x);
      ++idx;
    };
    With(v, [&](const auto&... f) { (one(f), ...); return 0; });
    Json n;
    if (T::kGiven) { for (const auto& s : g_names) n += (n.empty() ? "" : ",") + B(s); }
#ifdef __clang__
    else for (int k = 0; k < T::kN; ++k) n += (k ? "," : "") + B(string(1, (char)('a' + k)));
#endif
    if (T::kTag > 0) g_used[T::kTag] = true;
    return Jc("struct", c, ",\"n\":[" + n + "],\"nn\":" + Bool(T::kNo) + ",\"ty\":" + std::to_string(T::kTag));
  }
};

// ---------------------------------------------------------------------- events
static Json Owns() {
  Json all;
  for (int t = 1; t < kTags; ++t) {
    Json j;
    if (g_used[t]) for (int k = 0; k < kMaxFields; ++k) j += (k ? "," : "") + g_own[t][k].j;
    all += (t > 1 ? ",[" : "[") + j + "]";
  }
  return "[" + all + "]";
}
template<typename T> constexpr bool kExt = mbo::types::IsExtended<T>;
using Opts = StringifyOptions;
using OM = Stringify::OutputMode;
struct Mode { const char* name; const Opts& (*opts)(); OM om; Stringify (*as)(const StringifyRootOptions&); };
static const Mode kModes[] = {{"default", &Stringify::OptionsDefault, OM::kDefault, nullptr}, {"disabled", &Stringify::OptionsDisabled, OM::kDefault, nullptr}, {"cpp", &Stringify::OptionsCpp, OM::kCpp, &Stringify::AsCpp},
                              {"cpppretty", &Stringify::OptionsCppPretty, OM::kCppPretty, &Stringify::AsCppPretty}, {"json", &Stringify::OptionsJson, OM::kJson, &Stringify::AsJson},
                              {"jsonline", &Stringify::OptionsJsonLine, OM::kJsonLine, &Stringify::AsJsonLine}, {"jsonpretty", &Stringify::OptionsJsonPretty, OM::kJsonPretty, &Stringify::AsJsonPretty}};
template<typename T> string Streamed(const T& v) { std::ostringstream os; os << v; return os.str(); }
static const StringifyRootOptions kNoRoot{};
template<typename T> void Texts(const T& v, const Opts& o, const StringifyRootOptions& root, bool plain, std::vector<string>& out) {
  out.push_back(Stringify(o, root).ToString(v));
  std::ostringstream os;
  if (plain) Stringify(o).Stream(os, v);
  else Stringify(o, kNoRoot).Stream(os, v, root);
  out.push_back(os.str());
  if (!plain) return;
  if constexpr (kExt<T>) out.push_back(v.ToString(o));
  if constexpr (mbo::types::HasMboTypesStringifySupport<T> && !kExt<T>) {
    mbo::types::SetStringifyOstreamOptions(o);
    out.push_back(Streamed(v));
  }
}
template<typename T> void Print(Rng& r, const T& v, int only) {
  NewOwn(r);
  const Json j = V(v);
  const Json owns = Owns();
  auto emit = [&](const char* mode, const Json& opt, const StringifyRootOptions& root, const std::vector<string>& texts) {
    Rec("print").str("mode", mode).raw("opt", opt).raw("own", owns).raw("root", "{\"p\":" + B(root.root_prefix) + ",\"s\":" + B(root.root_suffix) + ",\"i\":" + B(root.root_indent) + "}").raw("v", j).bytess("texts", texts).emit();
  };
  for (size_t m = 0; m < std::size(kModes); ++m) {
    if (only >= 0 && (size_t)only != m) continue;
    const Mode& mode = kModes[m];
    const bool plain = r.chance(60);
    const StringifyRootOptions root = plain ? StringifyRootOptions{} : StringifyRootOptions{.root_prefix = Bit(r), .root_suffix = Bit(r), .root_indent = Bit(r)};
    std::vector<string> texts;
    Texts(v, mode.opts(), root, plain, texts);
    if (mode.as) {
      texts.push_back(mode.as(root).ToString(v));
      texts.push_back(Stringify(mode.om, root).ToString(v));
      texts.push_back(Stringify(Stringify::OptionsAs(mode.om), root).ToString(v));
    }
    if constexpr (mbo::types::HasMboTypesStringifySupport<T> && !kExt<T>) {
      if (plain && m != 1) { mbo::types::SetStringifyOstreamOutputMode(mode.om); texts.push_back(Streamed(v)); }
    }
    if (plain && m == 0) {
      texts.push_back(Stringify().ToString(v));
      if constexpr (kExt<T>) { texts.push_back(v.ToString()); texts.push_back(absl::StrCat(v)); texts.push_back(absl::StrFormat("%v", v)); texts.push_back(Streamed(v)); }
    }
    if constexpr (kExt<T>) { if (plain && m == 4) texts.push_back(v.ToJsonString()); }
    emit(mode.name, kUnset, root, texts);
  }
  Part p = RandPart(r, r.chance(50) ? 30 : 80, true);
  const bool plain = r.chance(70);
  const StringifyRootOptions root = plain ? StringifyRootOptions{} : StringifyRootOptions{.root_prefix = Bit(r), .root_suffix = Bit(r), .root_indent = Bit(r)};
  const Opts o = Opts::WithAllData(Opts(p.o));
  std::vector<string> texts;
  Texts(v, o, root, plain, texts);
  emit("custom", p.j, root, texts);
}
static const char* Order(std::partial_ordering c) { return c == std::partial_ordering::less ? "less" : c == std::partial_ordering::greater ? "greater" : c == std::partial_ordering::equivalent ? "equal" : "none"; }
template<typename A, typename B_> Json Rel(const A& a, const B_& b) {
  return string("{\"eq\":") + Bool(a == b) + ",\"ne\":" + Bool(a != b) + ",\"lt\":" + Bool(a < b) + ",\"le\":" + Bool(a <= b) + ",\"gt\":" + Bool(a > b) + ",\"ge\":" + Bool(a >= b) + ",\"c\":\"" + Order(a <=> b) + "\"}";
}
#ifdef __clang__  // only three way comparison with other structs is not ambiguous there
template<typename A, typename B_> Json RelOther(const A& a, const B_& b) {
  const std::partial_ordering c = a <=> b;
  return string("{\"eq\":") + Bool(c == 0) + ",\"ne\":" + Bool(c != 0) + ",\"lt\":" + Bool(c < 0) + ",\"le\":" + Bool(c <= 0) + ",\"gt\":" + Bool(c > 0) + ",\"ge\":" + Bool(c >= 0) + ",\"c\":\"" + Order(c) + "\"}";
}
#else
template<typename A, typename B_> Json RelOther(const A& a, const B_& b) { return Rel(a, b); }
#endif
template<typename T> auto TupleOf(const T& v) { return With(v, [](const auto&... f) { return std::make_tuple(f...); }); }
template<> inline bool Ranked(const std::vector<double>& v) { for (double q : v) if (!RankedF(q)) return false; return true; }
template<typename T> bool AllRanked(const T& v) { return With(v, [](const auto&... f) { return (Ranked(f) && ...); }); }
template<typename T, typename Other> void Compare(Rng& r) {
  T a{}, b{};
  Gen(r, a, 2);
  Gen(r, b, 2);
  if (r.chance(25)) b = a;
  else if (r.chance(60)) {  // equal up to some field
    const int upto = (int)r.below(T::kN + 1);
    T c = a;
    if constexpr (T::kN > 0) if (upto < 1) c.a = b.a;
    if constexpr (T::kN > 1) if (upto < 2) c.b = b.b;
    if constexpr (T::kN > 2) if (upto < 3) c.c = b.c;
    if constexpr (T::kN > 3) if (upto < 4) c.d = b.d;
    if constexpr (T::kN > 1) if (r.chance(40)) { if (r.chance(50)) c.a = a.a; else c.b = a.b; }
    b = c;
  }
  if (!AllRanked(a) || !AllRanked(b)) return;
  Json rels = Rel(a, b);
  const auto tb = TupleOf(b);
#ifndef __clang__  // ambiguous there
  rels += "," + RelOther(a, tb);
#endif
  Other o{};
  With(o, [&](auto&... f) { auto t = std::tie(f...); t = tb; return 0; });
  rels += "," + RelOther(a, o);
  bool hash = true;
  if (a == b && (absl::HashOf(a) != absl::HashOf(b) || std::hash<T>{}(a) != std::hash<T>{}(b) || absl::HashOf(a) != std::hash<T>{}(a))) hash = false;
  T c = a;
  if (absl::HashOf(a) != absl::HashOf(c)) hash = false;
  Rec("cmp").raw("a", V(a)).raw("b", V(b)).raw("rels", "[" + rels + "]").boolean("hash", hash).emit();
  Json made = V(T::ConstructFromTuple(TupleOf(a)));
  made += "," + With(a, [](const auto&... f) { auto t = std::make_tuple(f...); return std::apply([](auto&&... x) { return V(T::ConstructFromArgs(std::move(x)...)); }, std::move(t)); });
  made += "," + With(a, [](const auto&... f) { return V(T::ConstructFromConversions(f...)); });
  Rec("make").raw("v", V(a)).raw("vs", "[" + made + "]").emit();
}

template<typename T> void Prints(Rng& r, int n) {
  for (int k = 0; k < n; ++k) {
    T v{};
    if (k > 0) Gen(r, v, (int)r.below(4));
    Print(r, v, k < 2 ? -1 : (int)r.below(std::size(kModes)));
  }
}
template<typename T> using Vec = std::vector<T>;
template<typename T> using Opt = std::optional<T>;
template<typename T> using Map = std::map<string, T>;
template<typename A, typename B_> using Pair = std::pair<A, B_>;
using V1 = std::variant<int, string, E0<int>, Map<int>, Vec<string>, Pair<string, int>, std::monostate, Dis, std::array<int, 2>, Opt<Map<E0<int>>>, E1<char, string>, Stamp, std::nullptr_t>;

static void Group(int g, Rng& r, int n) {
  switch (g) {
#if VF_GROUP == 0
    case 0:
      Prints<E0<int, string, char, double>>(r, n);
      Prints<E0<>>(r, 2);
      Prints<E0<int, char, int, Opt<int>, int, int, string, int, bool, int, int, Vec<int>>>(r, n / 2);
      Prints<Pl<>>(r, 2);
      Prints<E0<bool, unsigned char, Opt<int>, Vec<string>>>(r, n);
      Prints<E0<V1>>(r, n);
      Prints<E0<Dis, std::nullptr_t, Stamp, Col>>(r, n);
      Prints<Dis>(r, 2);
      break;
#endif
#if VF_GROUP == 1
    case 1:
      Prints<E1<Map<int>, std::unique_ptr<string>, int*, Dis>>(r, n);
      Prints<E1<Opt<E1<Opt<int>, string>>, Vec<E1<char>>>>(r, n);
      Prints<E2<Pair<int, string>, Vec<Pair<int, char>>, E0<int, string>>>(r, n);
      Prints<E2<E2<int, string*>, Map<E2<float>>>>(r, n);
      break;
#endif
#if VF_GROUP == 2
    case 2:
      Prints<E3<Vec<E0<int, char>>, Opt<E1<string>>, V1>>(r, n);
      Prints<E3<Vec<Opt<string>>, Map<Vec<int>>, E3<int, char>, string>>(r, n);
      Prints<E4<Vec<string>, Pair<string, E4<int>>, Vec<Vec<char>>>>(r, n);
      Prints<E4<std::shared_ptr<E4<string>>, int, Vec<Pair<string, int>>>>(r, n);
      break;
#endif
#if VF_GROUP == 3
    case 3:
      Prints<E5<int, E5<string, Vec<int>>, Opt<string>, double>>(r, n);
      Prints<E5<Vec<E5<char>>, Map<Map<int>>, Holder>>(r, n);
      Prints<E6<int, E6<string, char>, Vec<E6<int>>, Dis>>(r, n);
      Prints<Em<int, string, Em<char>, Opt<En<int, int>>>>(r, n);
      break;
#endif
#if VF_GROUP == 4
    case 4:
      Prints<En<Map<En<int, string>>, std::multimap<string, Vec<int>>, Vec<Pair<string, double>>, std::nullptr_t>>(r, n);
      Prints<En<string, Texty, string_view>>(r, n);
      Prints<En<int, int, int, Opt<int>, Vec<int>, int, string, int, int, int, Dis, string>>(r, n / 3);
      Prints<Eo<int, En<string>, Pair<int, int>, Eo<char>>>(r, n);
      Prints<Ec<string, int, Ec<string>, Vec<string>>>(r, n);
      Prints<Pl<int, Pl<string, char>, E0<int>, Vec<Pl<int>>>>(r, n);
      break;
#endif
#if VF_GROUP == 5
    case 5:
      Prints<Pn<int, Pn<string>, std::unordered_map<string, int>, std::map<int, string>>>(r, n);
      Prints<Po<string, Po<int, char>, std::set<int>, std::list<double>>>(r, n);
      Prints<Map<E0<int, string>>>(r, n);
      Prints<Vec<Pair<string, Opt<int>>>>(r, n);
      Prints<std::multimap<string, V1>>(r, n);
      Prints<std::map<string_view, E1<int, string>>>(r, n);
      break;
#endif
#if VF_GROUP == 6
    case 6:
      Prints<E0<mbo::types::OptionalRef<string>, mbo::types::OptionalDataOrRef<int>, mbo::types::OptionalRef<E0<int>>, mbo::container::LimitedVector<string, 5>>>(r, n);
      Prints<E0<std::array<char, 2>, std::array<E0<int>, 2>, Opt<Opt<int>>, const E0<string>*>>(r, n);
      Prints<E0<int8_t, uint8_t, int16_t, uint16_t>>(r, n);
      Prints<E0<int64_t, uint64_t, unsigned, float>>(r, n);
      for (int k = 0; k < n; ++k) {
        std::deque<int> pool{1, 2, 3};
        string s = r.of(kTexts);
        E0<std::reference_wrapper<int>, std::reference_wrapper<const string>> v{{}, pool[r.below(3)], s};
        Print(r, v, -1);
      }
      break;
#endif
#if VF_GROUP == 7
    case 7:
      for (int k = 0; k < n * 4; ++k) {
        Compare<E0<int, string, char, double>, E1<int, string, char, double>>(r);
        Compare<E0<bool, Opt<int>, Vec<int>>, En<bool, Opt<int>, Vec<int>>>(r);
        Compare<E2<Pair<int, string>, E0<int, int>, Map<int>>, Eo<Pair<int, string>, E0<int, int>, Map<int>>>(r);
        Compare<E0<unsigned char>, E1<unsigned char>>(r);
        Compare<E0<std::variant<int, string>, int64_t, uint64_t>, E1<std::variant<int, string>, int64_t, uint64_t>>(r);
        Compare<E3<float, Vec<double>>, E1<float, Vec<double>>>(r);
      }
      break;
#endif
    default: break;
  }
}
int main(int argc, char** argv) {
  const int g = VF_GROUP;
  Rng r(argc > 1 ? (uint64_t)atoll(argv[1]) * 16 + g : 1);
  Group(g, r, argc > 2 ? atoi(argv[2]) : 3);
}
