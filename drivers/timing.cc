// Timing scopes (mbo::log::LogTiming): random histories under a clock that only the driver moves, and function names.
#include "mbo/log/log_timing.h"

#include <functional>
#include <map>
#include <memory>
#include <source_location>
#include <string>
#include <vector>

#include "absl/flags/flag.h"
#include "trace.h"

ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration);
ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);

namespace mbo::log::log_internal {
struct StripFunctionNameTest {
  static std::string Strip(std::string_view s) { return LogTimingImpl::StripFunctionName(s); }
};
}  // namespace mbo::log::log_internal

using mbo::log::LogTiming;
using Impl = decltype(LogTiming());
static std::string Strip(std::string_view s) { return mbo::log::log_internal::StripFunctionNameTest::Strip(s); }

static constexpr int kInf = 2000000000, kNone = -2000000001;
static int64_t g_now = 0;  // milliseconds
static absl::Time Clock() { return absl::UnixEpoch() + absl::Milliseconds(1000000000LL + g_now); }
static absl::Time At(int64_t ms) { return absl::UnixEpoch() + absl::Milliseconds(1000000000LL + ms); }
static absl::Duration Dur(int ms) { return ms == kInf ? absl::InfiniteDuration() : absl::Milliseconds(ms); }

static std::vector<std::string> g_seen;
static std::string Seen() {
  std::string r = "[";
  for (auto& s : g_seen) r += (r.size() > 1 ? "," : "") + s;
  g_seen.clear();
  return r + "]";
}
static void Hook(const absl::LogRecord& r) {
  g_seen.push_back("{\"sev\":" + std::to_string((int)r.severity) + ",\"file\":" + vf::Rec::quoted(r.file) + ",\"line\":" + std::to_string(r.line)
                   + ",\"msg\":" + vf::Rec::quoted(r.message) + "}");
}

// ------------------------------------------------------------------ histories
struct Args { int sev = 0; int min = kNone; bool has_start = false; int64_t start = 0; bool explicit_src = true; std::string text; int num = 0; int style = 0; };
struct Made { std::unique_ptr<Impl> scope; int line; };
#define SRC std::source_location::current()
// Makes a scope with the arguments at the place of `src`.
static std::unique_ptr<Impl> MakeAt(const Args& a, std::source_location src) {
  using Sev = absl::LogSeverity;
  std::optional<absl::Duration> min;
  if (a.min != kNone) min = Dur(a.min);
  const auto sev = (Sev)a.sev;
  switch (a.style % 3) {
    default:
    case 0:
      if (a.has_start) return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .start_time = At(a.start), .src = src}) << a.text));
      return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .src = src}) << a.text));
    case 1:
      if (a.has_start) return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .start_time = At(a.start), .src = src}) << std::string_view(a.text) << a.num));
      return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .src = src}) << std::string_view(a.text) << a.num));
    case 2:  // no text at all: the result is created in place
      if (a.has_start) return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .start_time = At(a.start), .src = src})));
      return std::unique_ptr<Impl>(new Impl(LogTiming({.severity = sev, .min_duration = min, .src = src})));
  }
}
namespace vf_time {
Made Plain(const Args& a) { return {MakeAt(a, SRC), __LINE__}; }
struct Worker {
  Made Method(const Args& a) const { return {MakeAt(a, SRC), __LINE__}; }
  Made operator()(const Args& a) { return {MakeAt(a, SRC), __LINE__}; }
  const Worker* operator<(const Args& a) const;
  Made less;
};
namespace inner {
template<typename T>
Made Generic(const Args& a, T /*unused*/) { return {MakeAt(a, SRC), __LINE__}; }
std::function<Made(const Args&)> Lambda() { return [](const Args& a) { return Made{MakeAt(a, SRC), __LINE__}; }; }
}  // namespace inner
// With the defaults of the library: the place is the caller's, the start is now, the severity is info.
Made Default() { auto p = std::unique_ptr<Impl>(new Impl(LogTiming())); const int line = __LINE__; return {std::move(p), line}; }
Made DefaultMin(int min) { auto p = std::unique_ptr<Impl>(new Impl(LogTiming({.min_duration = Dur(min)}))); const int line = __LINE__; return {std::move(p), line}; }
}  // namespace vf_time

static void MakeRec(vf::Rec& r, int id, const Args& a, int line, const std::string& fn) {
  r.num("id", id).num("sev", a.sev).num("min", a.min).num("start", a.has_start ? a.start : g_now).str("file", __FILE__).num("line", line).str("fn", fn);
  r.str("msg", a.style % 3 == 2 ? "" : a.style % 3 == 1 ? a.text + std::to_string(a.num) : a.text);
}

static const int kDurs[] = {0, 1, 2, 250, 999, 1000, 1500, 2000, 2001, 59999, 60000, 61250, 3600000, 3661005};
static void History(vf::Rng& rng, int id) {
  vf::Reset(id);
  g_now = 0;
  g_seen.clear();
  if (absl::GetFlag(FLAGS_mbo_log_timing_min_duration) != absl::Seconds(2)) absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::Seconds(2));
  if (absl::GetFlag(FLAGS_mbo_log_timing_min_severity_always) != absl::LogSeverity::kError) absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, absl::LogSeverity::kError);
  absl::SetMinLogLevel(absl::LogSeverityAtLeast::kInfo);
  std::map<int, std::unique_ptr<Impl>> open;
  int next = 1;
  const auto pick = [&] { auto it = open.begin(); std::advance(it, rng.below(open.size())); return it; };
  const auto add = [&](Args& a, Made m, const std::string& fn) {
    vf::Rec r("make");
    const int n = next++;
    MakeRec(r, n, a, m.line, fn);
    r.raw("seen", Seen()).emit();
    open[n] = std::move(m.scope);
  };
  const int steps = 6 + rng.below(30);
  for (int i = 0; i < steps; ++i) {
    switch (rng.below(12)) {
      case 0: case 1: case 2: {
        Args a;
        a.sev = rng.below(3);
        if (rng.chance(50)) a.min = rng.chance(20) ? kInf : rng.chance(15) ? -5 : kDurs[rng.below(std::size(kDurs))];
        if (rng.chance(30)) { a.has_start = true; a.start = g_now - (int64_t)kDurs[rng.below(std::size(kDurs))] * (rng.chance(80) ? 1 : -1); }
        a.style = rng.below(3);
        a.num = (int)rng.below(2000) - 1000;
        a.text = std::string(rng.chance(30) ? "" : rng.chance(50) ? "some text" : ": @ (x)[y] %d {}");
        switch (rng.below(7)) {
          case 0: add(a, vf_time::Plain(a), "vf_time::Plain"); break;
          case 1: add(a, vf_time::Worker().Method(a), "vf_time::Worker::Method"); break;
          case 2: add(a, vf_time::Worker()(a), "vf_time::Worker::operator()"); break;
          case 3: add(a, vf_time::inner::Generic(a, 1), "vf_time::inner::Generic"); break;
          case 4: add(a, vf_time::inner::Generic(a, std::function<void(int, std::pair<int, int>)>()), "vf_time::inner::Generic"); break;
          case 5: add(a, vf_time::inner::Lambda()(a), "vf_time::inner::Lambda()::[]()"); break;
          case 6: { Args d; d.style = 2; if (rng.chance(50)) { add(d, vf_time::Default(), "vf_time::Default"); } else { d.min = a.min == kNone ? 7 : a.min; add(d, vf_time::DefaultMin(d.min), "vf_time::DefaultMin"); } break; }
        }
        break;
      }
      case 3: if (!open.empty()) {
        auto it = pick();
        const std::string t = rng.chance(20) ? "" : rng.chance(50) ? " and more" : "x";
        if (rng.chance(50)) { (void)(std::move(*it->second) << t); vf::Rec("stream").num("id", it->first).str("text", t).raw("seen", Seen()).emit(); }
        else { const int v = (int)rng.below(100) - 50; (void)(std::move(*it->second) << t << v << "."); vf::Rec("stream").num("id", it->first).str("text", t + std::to_string(v) + ".").raw("seen", Seen()).emit(); }
        break;
      } else { break; }
      case 4: case 5: if (!open.empty()) {
        auto it = pick();
        const int n = next++;
        auto p = std::make_unique<Impl>(std::move(*it->second));
        vf::Rec("move").num("id", it->first).num("to", n).raw("seen", Seen()).emit();
        open[n] = std::move(p);
        break;
      } else { break; }
      case 6: case 7: {
        const int ms = kDurs[rng.below(rng.chance(70) ? 9 : std::size(kDurs))];
        g_now += ms;
        vf::Rec("clock").num("ms", ms).raw("seen", Seen()).emit();
        break;
      }
      case 8: {
        const int k = rng.below(3);
        if (k == 0) { const int d = rng.chance(20) ? kInf : kDurs[rng.below(std::size(kDurs))]; absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, Dur(d)); vf::Rec("mindur").num("ms", d).raw("seen", Seen()).emit(); }
        else if (k == 1) { const int s = rng.below(4); absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, (absl::LogSeverity)s); vf::Rec("minsev").num("sev", s).raw("seen", Seen()).emit(); }
        else if (rng.chance(30)) { const int s = rng.below(3); absl::SetMinLogLevel((absl::LogSeverityAtLeast)s); vf::Rec("logmin").num("sev", s).raw("seen", Seen()).emit(); }
        break;
      }
      default: if (!open.empty()) {
        auto it = rng.chance(50) ? pick() : std::prev(open.end());
        const int n = it->first;
        it->second.reset();
        vf::Rec("end").num("id", n).raw("seen", Seen()).emit();
        open.erase(it);
      }
    }
  }
  while (!open.empty()) {
    auto it = std::prev(open.end());
    const int n = it->first;
    it->second.reset();
    vf::Rec("end").num("id", n).raw("seen", Seen()).emit();
    open.erase(it);
  }
}
// Real nested blocks and results that are dropped at once.
static void Blocks(vf::Rng& rng, int id) {
  History(rng, id);  // leaves nothing open
  const auto made = [&](int n, int line, std::string_view msg, int sev) {
    vf::Rec("make").num("id", n).num("sev", sev).num("min", 2).num("start", g_now).str("file", __FILE__).num("line", line).str("fn", "Blocks").str("msg", msg).raw("seen", Seen()).emit();
  };
  const auto end = [&](int n) { vf::Rec("end").num("id", n).raw("seen", Seen()).emit(); };
  {
    auto a = LogTiming({.min_duration = absl::Milliseconds(2)}) << "outer"; made(1001, __LINE__, "outer", 0);
    g_now += 1; vf::Rec("clock").num("ms", 1).raw("seen", Seen()).emit();
    {
      const auto b = LogTiming({.severity = absl::LogSeverity::kWarning, .min_duration = absl::Milliseconds(2)}) << "in" << "ner"; made(1002, __LINE__, "inner", 1);
      const int d = rng.below(4); g_now += d; vf::Rec("clock").num("ms", d).raw("seen", Seen()).emit();
    }
    end(1002);
    { std::vector<std::string> before = g_seen; (void)LogTiming({.min_duration = absl::Milliseconds(2), .start_time = At(g_now - 2)}); const int line = __LINE__; auto after = g_seen; g_seen = before; g_now -= 2; made(1003, line, "", 0); g_now += 2; g_seen = after; end(1003); }
  }
  end(1001);
}

// ---------------------------------------------------------------------- names
struct Lam { std::string params, quals; };
struct Fn { std::string form, pre, ret, gap, name, targs, params, quals, clause; std::vector<std::string> path; std::vector<Lam> lambdas; };
static std::string Join(const std::vector<std::string>& v, std::string_view sep) { std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }
static std::string TextOf(const Fn& f) {
  const bool gcc = f.form == "gcc";
  auto path = f.path; path.push_back(f.name);
  std::string t = f.pre + f.ret + f.gap + Join(path, "::") + f.targs + "(" + f.params + ")";
  if (f.lambdas.empty() || gcc) t += f.quals;
  for (size_t i = 0; i < f.lambdas.size(); ++i) {
    if (gcc) t += "::<lambda(" + f.lambdas[i].params + ")>" + f.lambdas[i].quals;
    else { t += "::(anonymous class)::operator()(" + f.lambdas[i].params + ")"; if (i + 1 == f.lambdas.size()) t += f.lambdas[i].quals; }
  }
  return t + f.clause;
}
using V = std::vector<std::string>;
static void Name(vf::Rng& rng) {
  Fn f;
  const bool gcc = rng.chance(50);
  f.form = gcc ? "gcc" : "clang";
  const V types = gcc ? V{"int", "long long unsigned int", "const char*", "const std::string&", "std::function<void(int, bool)>", "S&&", "a::b::S", "std::pair<int, std::vector<std::pair<int, int> > >", "T", "void (*)(int)", "int (&)[3]", "T ...", "auto:1", "{anonymous}::An", "decltype(f(t))", "std::array<int, 3>", "std::function<void(std::function<int(char, long int)>, const int*)>"}
                      : V{"int", "unsigned long long", "const char *", "const std::string &", "std::function<void (int, bool)>", "S &&", "a::b::S", "std::pair<int, std::vector<std::pair<int, int>>>", "T", "void (*)(int)", "int (&)[3]", "T...", "auto", "(anonymous namespace)::An", "decltype(f(t))", "std::array<int, 3>", "std::function<void (std::function<int (char, long)>, const int *)>"};
  const auto params = [&] { V p; for (int n = rng.chance(25) ? 0 : 1 + rng.below(4); n > 0; --n) p.push_back(rng.of(types)); return Join(p, ", "); };
  const V spaces = {"ns", "a", "Class", "Operators", "operator_", "std", "W<int>", gcc ? "W<T>" : "W<a::b::S>", gcc ? "W<std::function<void(int)> >" : "W<std::function<void (int)>>", gcc ? "{anonymous}" : "(anonymous namespace)", "V<-1>", "Map<int, std::pair<int, bool>>", gcc ? "N<(E)1>" : "N<E::kOne>", "_x9"};
  for (int n = rng.below(4); n > 0; --n) f.path.push_back(rng.of(spaces));
  if (rng.chance(15)) { f.path.push_back("fun(" + params() + ")"); f.path.push_back("Local"); }  // a local class
  const bool is_op = rng.chance(30);
  bool ctor = false;
  if (is_op) {
    f.name = rng.of(V{"operator()", "operator<", "operator>", "operator<<", "operator>>", "operator<=>", "operator->", "operator->*", "operator==", "operator[]", "operator,", "operator*", "operator&", "operator&&", "operator<=", "operator>=", "operator>>=", "operator=", "operator!", "operator~", "operator new", "operator delete []", "operator\"\"_km",
                      "operator int", gcc ? "operator const char*" : "operator const char *", gcc ? "operator std::function<void(int)>" : "operator std::function<void (int)>", "operator bool", "operator long long unsigned int", "operator T"});
  } else {
    f.name = rng.of(V{"foo", "Method", "TestBody", "f", "operators", "operator1", "my_operator", "xoperator", "Fun_Test_9"});
    if (rng.chance(15) && !f.path.empty()) { ctor = true; f.name = rng.chance(50) ? "Local" : "~Local"; }
    if (rng.chance(20)) f.targs = rng.of(V{"<int>", "<int, std::function<void(int, bool)>>", "<std::pair<int, std::vector<int>>>", "<>", "<std::function<void(std::pair<int, int>)>, T>"});
  }
  f.params = params();
  const bool lambdas = rng.chance(30);
  // Lambdas have no return type with GCC, and `auto` with Clang
  if (lambdas && gcc) { f.ret = ""; }
  else if (lambdas) { f.ret = "auto"; }
  else if (ctor) { f.ret = ""; }
  else { f.ret = rng.of(types); if (rng.chance(15)) f.ret = rng.of(gcc ? V{"auto", "decltype(auto)", "void", "int**", "const int*&", "std::pair<int, bool>*", "unsigned"} : V{"auto", "decltype(auto)", "void", "int **", "const int *&", "std::pair<int, bool> *", "unsigned"}); }
  if (!gcc && !f.ret.empty() && f.ret.back() != '*' && f.ret.back() != '&' ) f.gap = " ";
  if (gcc && !f.ret.empty()) f.gap = " ";
  if (f.ret.ends_with("(*)(int)") || f.ret.ends_with("[3]")) { f.ret = "void"; f.gap = " "; }  // such functions have another shape
  if (!lambdas && rng.chance(20)) f.pre = rng.of(V{"static ", "virtual ", "constexpr ", "inline ", "static constexpr "});
  f.quals = rng.of(V{"", "", "", " const", " const &", " &&", " volatile", " &", " const volatile", " const &&"});
  if (lambdas) for (int n = 1 + rng.below(3); n > 0; --n) f.lambdas.push_back({params(), gcc ? (rng.chance(30) ? " mutable" : "") : (rng.chance(70) ? " const" : "")});
  if (rng.chance(35)) f.clause = gcc ? rng.of(V{" [with T = int]", " [with T = std::function<void(int)>; int N = 3]", " [with T = main()::<lambda(int)>]", " [with T = {int, char [3]}]", " [with T = int [4]; U = std::pair<int, bool>]"})
                                     : rng.of(V{" [T = int]", " [T = std::function<void (int)>, N = 3]", " [T = (lambda at f.cc:3:4)]", " [T = <int, char[3]>]", " [T = int[4], U = std::pair<int, bool>]"});
  const std::string text = TextOf(f);
  const auto q = [](std::string_view s) { return vf::Rec::quoted(s); };
  std::string j = "{\"form\":" + q(f.form) + ",\"pre\":" + q(f.pre) + ",\"ret\":" + q(f.ret) + ",\"gap\":" + q(f.gap) + ",\"name\":" + q(f.name) + ",\"targs\":" + q(f.targs) + ",\"params\":" + q(f.params) + ",\"quals\":" + q(f.quals) + ",\"clause\":" + q(f.clause) + ",\"path\":[";
  for (size_t i = 0; i < f.path.size(); ++i) j += (i ? "," : "") + q(f.path[i]);
  j += "],\"lambdas\":[";
  for (size_t i = 0; i < f.lambdas.size(); ++i) j += (i ? ",{\"params\":" : "{\"params\":") + q(f.lambdas[i].params) + ",\"quals\":" + q(f.lambdas[i].quals) + "}";
  j += "]}";
  vf::Rec("name").raw("f", j).str("text", text).str("got", Strip(text)).emit();
}

// Functions as this compiler names them.
static void Real(std::string_view want, std::source_location s = std::source_location::current()) { vf::Rec("real").str("full", s.function_name()).str("got", Strip(s.function_name())).str("want", want).emit(); }
namespace re::al {
void Plain() { Real("re::al::Plain"); }
int With(int, const std::string& = "") { Real("re::al::With"); return 0; }
const int& RefRet(int&&) { Real("re::al::RefRet"); static int i; return i; }
int* PtrRet() { Real("re::al::PtrRet"); return nullptr; }
const char* const* PtrPtr() { Real("re::al::PtrPtr"); return nullptr; }
std::function<void(int, bool)> FnRet(std::function<int(char)>) { Real("re::al::FnRet"); return {}; }
auto Auto() { Real("re::al::Auto"); return 1; }
decltype(auto) DAuto() { Real("re::al::DAuto"); return 1; }
template<typename T> void Tmpl(T) { Real("re::al::Tmpl"); }
template<typename T, int N = 3> T Tmpl2() { Real("re::al::Tmpl2"); return T(); }
template<typename... T> std::pair<int, T...>* TmplV(T...) { Real("re::al::TmplV"); return nullptr; }
struct S {
  S() { Real("re::al::S::S"); }
  explicit S(int) { Real("re::al::S::S"); }
  ~S() { Real("re::al::S::~S"); }
  void M() const { Real("re::al::S::M"); }
  void N() && noexcept { Real("re::al::S::N"); }
  static void St() { Real("re::al::S::St"); }
  virtual void Vi() { Real("re::al::S::Vi"); }
  int operator()(int) const { Real("re::al::S::operator()"); return 0; }
  bool operator<(const S&) const { Real("re::al::S::operator<"); return false; }
  bool operator>(int) const { Real("re::al::S::operator>"); return false; }
  S& operator<<(int) { Real("re::al::S::operator<<"); return *this; }
  S* operator->() { Real("re::al::S::operator->"); return this; }
  bool operator<=>(int) const { Real("re::al::S::operator<=>"); return false; }
  bool operator==(int) const { Real("re::al::S::operator=="); return false; }
  int operator[](int) { Real("re::al::S::operator[]"); return 0; }
  operator int() const { Real("re::al::S::operator int"); return 0; }
  S& operator=(int) { Real("re::al::S::operator="); return *this; }
  int operator,(int) { Real("re::al::S::operator,"); return 1; }
  int& operator*() { Real("re::al::S::operator*"); static int i; return i; }
  template<typename T> T operator+(T t) { Real("re::al::S::operator+"); return t; }
  void L() const { [] { Real("re::al::S::L()::[]()"); [](int) { Real("re::al::S::L()::[]()::[]()"); }(1); }(); }
};
template<typename T> struct W {
#ifdef __clang__
  void M() { Real("re::al::W<int>::M"); }
#else
  void M() { Real("re::al::W<T>::M"); }
#endif
  void L() { [](int) { Real("re::al::W<int>::L()::[]()"); }(1); }
};
#ifdef __clang__
#define VF_ANON "(anonymous namespace)"
#else
#define VF_ANON "{anonymous}"
#endif
namespace { void Anon() { Real("re::al::" VF_ANON "::Anon"); } struct An { void M(int) { Real("re::al::" VF_ANON "::An::M"); } }; An AnRet() { Real("re::al::" VF_ANON "::AnRet"); return {}; } }
void Lambdas() {
  [] { Real("re::al::Lambdas()::[]()"); }();
  auto l = [](auto, int&) { Real("re::al::Lambdas()::[]()"); };
  int i = 0; l(1, i); l(std::function<void(int)>(), i);
  [&]() mutable -> int* { Real("re::al::Lambdas()::[]()"); return nullptr; }();
  struct Local { void M(int) { Real("re::al::Lambdas()::Local::M"); } }; Local().M(1);
}
void NoEx(int) noexcept(true) { Real("re::al::NoEx"); }
void Arr(int (&)[3], void (*)(int), int S::*) { Real("re::al::Arr"); }
}  // namespace re::al
extern "C" void RealC(int) { Real("RealC"); }
static void Reals() {
  using namespace re::al;
  Plain(); With(1); RefRet(1); PtrRet(); PtrPtr(); FnRet({}); Auto(); DAuto(); Tmpl(1); Tmpl(std::function<void(int)>()); Tmpl([](int) {}); Tmpl2<int>(); TmplV(1);
  S s; (void)S(1); s.M(); S().N(); S::St(); s.Vi(); s(1); (void)(s < s); (void)(s > 1); s << 1; s.operator->(); (void)(s <=> 1); (void)(s == 1); s[1]; (void)(int)s; s = 1; (void)(s, 1); *s; s + 1; s.L();
  W<int>().M(); W<int>().L(); Anon(); An().M(1); AnRet(); Lambdas(); NoEx(1); int x[3]; Arr(x, nullptr, nullptr); RealC(1);
}

int main(int argc, char** argv) {
  vf::Rng rng(argc > 1 ? std::stoull(argv[1]) : 1);
  const bool deep = argc > 2 && std::string_view(argv[2]) == "thorough";
  absl::shim_now = Clock;
  absl::shim_log_hook = Hook;
  vf::Reset(0);
  {
    const absl::Duration d = absl::GetFlag(FLAGS_mbo_log_timing_min_duration);
    vf::Rec("flags").num("dur", absl::ToInt64Milliseconds(d)).num("sev", (int)absl::GetFlag(FLAGS_mbo_log_timing_min_severity_always)).emit();
  }
  Reals();
  const int names = deep ? 40000 : 5000;
  for (int i = 0; i < names; ++i) { if (i % 500 == 0) vf::Reset(i); Name(rng); }
  const int n = deep ? 6000 : 900;
  for (int i = 0; i < n; ++i) { if (i % 10 == 0) Blocks(rng, 100000 + i); else History(rng, 100000 + i); }
}
