// Verdicts of the library's test matchers and test macros, recorded for MatchersTrace.
#include <sys/wait.h>
#include <unistd.h>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include "gmock/gmock.h"
#include "gtest/gtest-spi.h"
#include "gtest/gtest.h"
#include "mbo/testing/matchers.h"
#include "mbo/testing/status.h"
#include "trace.h"

namespace {
using ::testing::Matcher;
using vf::Rec;
using vf::Rng;
namespace mt = ::mbo::testing;

template<typename V> struct Term { std::string json; Matcher<V> m; };
using Ints = std::vector<int>;
// what WhenTransformedBy is made from; see Stored
std::vector<std::shared_ptr<void>> kept;
template<typename T> const T& Keep(T v) { auto p = std::make_shared<T>(std::move(v)); kept.push_back(p); return *p; }
using Map = absl::btree_map<std::string, std::string>;

std::string J(int v) { return std::to_string(v); }
std::string J(std::string_view v) { return Rec::arrayed(v); }
template<typename A, typename B> std::string J(const std::pair<A, B>& p) { return "[" + J(p.first) + "," + J(p.second) + "]"; }
template<typename C> requires requires(const C& c) { c.begin(); typename C::value_type; } && (!std::convertible_to<C, std::string_view>)
std::string J(const C& c) { std::string r = "["; for (const auto& x : c) { if (r.size() > 1) r += ','; r += J(x); } return r + "]"; }
std::string K(std::string_view k, std::string_view rest = "") { return "{\"k\":\"" + std::string(k) + "\"" + std::string(rest) + "}"; }
std::string F(std::string_view f, std::string_view json) { return ",\"" + std::string(f) + "\":" + std::string(json); }

std::string Text(Rng& r) {
  static const std::vector<std::string> kAll{"", "a", "b", "ab", "x y", "\n", "a\n", "  a\n    b\n  c\n", "\n  a\n  b", "    ", " a", "\ta", std::string("n\0l", 3), std::string("\0", 1), "a\nb", "a\n\nb", "  a\n\n  b", "\n", "\n\n", "\xC3\xA4", "\r\n a", "  a\n  b\n ", "\n   x\n     y\n   z\n   ", "a\nb\n"};
  if (r.chance(70)) return r.of(kAll);
  std::string s;
  for (size_t n = r.below(9); n; --n) s += "ab \n\n  \t"[r.below(8)];
  return s;
}
Ints RandomInts(Rng& r, size_t max = 4) { Ints v; for (size_t n = r.below(max + 1); n; --n) v.push_back((int)r.below(7) - 2); return v; }

// The composition every matcher takes part in.
template<typename V, typename Leaf> Term<V> Composed(Rng& r, int depth, Leaf leaf) {
  switch (depth > 0 ? r.below(6) : 9) {
    case 0: { auto t = Composed<V>(r, depth - 1, leaf); return {K("not", F("m", t.json)), ::testing::Not(t.m)}; }
    case 1: { auto a = Composed<V>(r, depth - 1, leaf), b = Composed<V>(r, depth - 1, leaf); return {K("all", F("ms", "[" + a.json + "," + b.json + "]")), ::testing::AllOf(a.m, b.m)}; }
    case 2: { auto a = Composed<V>(r, depth - 1, leaf), b = Composed<V>(r, depth - 1, leaf); return {K("any", F("ms", "[" + a.json + "," + b.json + "]")), ::testing::AnyOf(a.m, b.m)}; }
    default: return leaf(r, depth);
  }
}

template<typename V> Term<V> Elem(Rng& r) {
  const Ints v = RandomInts(r);
  std::string json = K("elem", F("s", J(v)));
  switch (r.below(6)) {
    case 0: return {json, mt::IsElementOf(v)};
    case 1: return {json, mt::IsElementOf(std::list<int>(v.begin(), v.end()))};
    case 2: return {json, mt::IsElementOf(std::deque<int>(v.begin(), v.end()))};
    case 3: { std::set<int> s(v.begin(), v.end()); return {K("elem", F("s", J(s))), mt::IsElementOf(s)}; }
    case 4: return {K("elem", F("s", "[1,2,3]")), mt::IsElementOf({1, 2, 3})};
    default: {
      std::map<int, int> m;
      std::string s = "[";
      for (int x : v) m.emplace(x, (int)r.below(5));
      for (auto [a, b] : m) { if (s.size() > 1) s += ','; s += "[" + J(a) + "," + J(b) + "]"; }
      s += "]";
      if (r.chance(50)) return {K("key", F("s", s)), mt::IsKeyOf(m)};
      if (r.chance(30)) {
        std::multimap<int, int> mm(m.begin(), m.end());
        if (!m.empty()) { mm.insert(*m.begin()); }
        s = "[";
        for (auto [a, b] : mm) { if (s.size() > 1) s += ','; s += "[" + J(a) + "," + J(b) + "]"; }
        s += "]";
        return {K("value", F("s", s)), mt::IsValueOf(mm)};
      }
      return {K("value", F("s", s)), mt::IsValueOf(m)};
    }
  }
}
Term<int> IntM(Rng& r, int depth) {
  return Composed<int>(r, depth, [](Rng& r, int) -> Term<int> {
    int n = (int)r.below(7) - 2;
    switch (r.below(6)) {
      case 0: return {K("eq", F("v", J(n))), ::testing::Eq(n)};
      case 1: return {K("le", F("v", J(n))), ::testing::Le(n)};
      case 2: return {K("ge", F("v", J(n))), ::testing::Ge(n)};
      default: return Elem<int>(r);
    }
  });
}
template<typename N> Term<N> SizeM(Rng& r, size_t around) {
  size_t n = around + r.below(3);
  n = n ? n - 1 : 0;
  switch (r.below(3)) {
    case 0: return {K("eq", F("v", J((int)n))), ::testing::Eq(n)};
    case 1: return {K("le", F("v", J((int)n))), ::testing::Le(n)};
    default: return {K("ge", F("v", J((int)n))), ::testing::Ge(n)};
  }
}
Term<const Ints&> SeqM(Rng& r, int depth) {
  return Composed<const Ints&>(r, depth, [](Rng& r, int depth) -> Term<const Ints&> {
    switch (r.below(5)) {
      case 0: { Ints v = RandomInts(r); return {K("elements", F("s", J(v))), ::testing::ElementsAreArray(v)}; }
      case 1: { auto t = IntM(r, depth - 1); return {K("contains", F("m", t.json)), ::testing::Contains(t.m)}; }
      case 2: { auto t = IntM(r, depth - 1); return {K("each", F("m", t.json)), ::testing::Each(t.m)}; }
      case 3: { auto t = SizeM<size_t>(r, 2); return {K("size", F("m", t.json)), ::testing::SizeIs(t.m)}; }
      default: {  // WhenTransformedBy
        auto t = SeqM(r, depth - 1);
        int f = (int)r.below(4);
        int by = (int)r.below(4);
        std::string json = K("when", F("f", J(f)) + F("by", J(by)) + F("m", t.json));
        switch (f) {
          case 0: return {json, mt::WhenTransformedBy(Keep([by](int v) { return v + by; }), Keep(t.m))};
          case 1: return {json, mt::WhenTransformedBy(Keep([by](int v) { return v * by; }), Keep(t.m))};
          case 2: return {json, mt::WhenTransformedBy(Keep([](const int& v) -> int { return -v; }), Keep(t.m))};
          default: return {json, mt::WhenTransformedBy(Keep(std::function<int(int)>([by](int v) { return v == by; })), Keep(t.m))};
        }
      }
    }
  });
}
Term<const std::vector<int>&> CapM(Rng& r, const Ints& v) {
  auto t = SizeM<size_t>(r, v.capacity());
  if (r.chance(40)) return {K("capacity", F("m", K("eq", F("v", J((int)v.capacity()))))), mt::CapacityIs(v.capacity())};
  return {K("capacity", F("m", t.json)), mt::CapacityIs(t.m)};
}
Term<std::string_view> TextM(Rng& r, int depth) {
  return Composed<std::string_view>(r, depth, [](Rng& r, int) -> Term<std::string_view> {
    std::string t = Text(r);
    switch (r.below(4)) {
      case 0: return {K("text", F("s", J(t))), mt::EqualsText(t)};
      case 1: return {K("dropped", F("s", J(t))), mt::WithDropIndent(mt::EqualsText(t))};
      case 2: { auto m = mt::EqualsText(t); auto d = mt::WithDropIndent(mt::EqualsText(t)); (void)d; return {K("text", F("s", J(t))), m}; }
      default: { std::vector<std::string> v{t, Text(r)}; return {K("elem", F("s", J(v))), mt::IsElementOf(v)}; }
    }
  });
}
Term<const std::string&> MsgM(Rng& r) {
  std::string t = Text(r);
  switch (r.below(4)) {
    case 0: return {K("eq", F("v", J(t))), ::testing::Eq(t)};
    case 1: return {K("substr", F("s", J(t))), ::testing::HasSubstr(t)};
    case 2: return {K("not", F("m", K("eq", F("v", J(t))))), ::testing::Ne(t)};
    default: return {K("true"), ::testing::_};
  }
}
struct CodeTerm { std::string json; absl::StatusCode a, b; int form; };
CodeTerm CodeM(Rng& r) {
  CodeTerm c{"", (absl::StatusCode)r.below(17), (absl::StatusCode)r.below(17), (int)r.below(5)};
  if (r.chance(40)) c.a = (absl::StatusCode)r.below(4);
  if (r.chance(20)) c.b = absl::StatusCode::kOk;
  auto eq = [](absl::StatusCode x) { return K("eq", F("v", J((int)x))); };
  switch (c.form) {
    case 0: case 1: c.json = eq(c.a); break;
    case 2: c.json = K("any", F("ms", "[" + eq(c.a) + "," + eq(c.b) + "]")); break;
    case 3: c.json = K("not", F("m", eq(c.a))); break;
    default: c.json = K("true");
  }
  return c;
}
Map g_pays;  // what a matcher asked for, for a status that has it
template<typename S> Term<const S&> StatusM(Rng& r, int depth) {
  return Composed<const S&>(r, depth, [](Rng& r, int depth) -> Term<const S&> {
    if constexpr (!std::is_same_v<S, absl::Status>) {
      if (r.chance(40)) {
        auto t = IntM(r, depth);
        if (r.chance(30)) { int n = (int)r.below(5); return {K("holds", F("m", K("eq", F("v", J(n))))), mt::IsOkAndHolds(n)}; }
        return {K("holds", F("m", t.json)), mt::IsOkAndHolds(t.m)};
      }
    }
    std::string url = "u" + std::to_string(r.below(3));
    switch (r.below(8)) {
      case 0: return {K("isok"), mt::IsOk()};
      case 1: return {K("payload"), mt::StatusHasPayload()};
      case 2: return {K("url", F("url", J(url))), mt::StatusHasPayload(url)};
      case 3: { auto t = MsgM(r); return {K("urlm", F("url", J(url)) + F("m", t.json)), mt::StatusHasPayload(url, t.m)}; }
      case 4: {
        Map m;
        for (size_t n = r.below(3); n; --n) m["u" + std::to_string(r.below(3))] = Text(r);
        if (r.chance(50)) { auto t = SizeM<size_t>(r, 1); return {K("payloads", F("m", K("size", F("m", t.json)))), mt::StatusPayloads(::testing::SizeIs(t.m))}; }
        g_pays = m;
        return {K("payloads", F("m", K("elements", F("s", J(m))))), mt::StatusPayloads(::testing::ElementsAreArray(m))};
      }
      default: {
        auto c = CodeM(r);
        if (r.chance(50)) {
          std::string json = K("is", F("c", c.json) + F("m", K("true")));
          switch (c.form) {
            case 0: return {json, mt::StatusIs(c.a)};
            case 1: return {json, mt::StatusIs((int)c.a)};
            case 2: return {json, mt::StatusIs(::testing::AnyOf(c.a, c.b))};
            case 3: return {json, mt::StatusIs(::testing::Not(c.a))};
            default: return {json, mt::StatusIs(::testing::_)};
          }
        }
        auto t = MsgM(r);
        std::string json = K("is", F("c", c.json) + F("m", t.json));
        switch (c.form) {
          case 0: return {json, mt::StatusIs(c.a, t.m)};
          case 1: return {json, mt::StatusIs((int)c.a, t.m)};
          case 2: return {json, mt::StatusIs(::testing::AnyOf(c.a, c.b), t.m)};
          case 3: return {json, mt::StatusIs(::testing::Not(c.a), t.m)};
          default: return {json, mt::StatusIs(::testing::_, t.m)};
        }
      }
    }
  });
}
absl::Status RandomStatus(Rng& r) {
  if (r.chance(25)) return absl::OkStatus();
  absl::Status s((absl::StatusCode)(r.chance(50) ? 1 + r.below(3) : 1 + r.below(16)), Text(r));
  if (!g_pays.empty() && r.chance(70)) {
    for (auto& [u, t] : g_pays) s.SetPayload(u, absl::Cord(r.chance(10) ? t + "x" : t));
    g_pays.clear();
    if (r.chance(80)) return s;
  }
  for (size_t n = r.chance(40) ? 0 : r.below(4); n; --n) s.SetPayload("u" + std::to_string(r.below(4)), absl::Cord(Text(r)));
  return s;
}
std::string Json(const absl::Status& s) {
  std::vector<std::pair<std::string, std::string>> p;
  s.ForEachPayload([&](std::string_view u, const absl::Cord& c) { p.emplace_back(std::string(u), std::string(c)); });
  return "{\"code\":" + J((int)s.code()) + F("msg", J(s.message())) + F("pays", J(p)) + "}";
}
std::string Json(const absl::StatusOr<int>& s) { return "{\"st\":" + Json(s.status()) + F("value", J(s.ok() ? *s : 0)) + "}"; }

template<typename V, typename X> void Judge(std::string_view kind, const Term<V>& t, const X& value, std::string_view json) {
  // The verdict is the same asked once or often, with and without an explanation, through a copy.
  std::vector<int> got;
  got.push_back(t.m.Matches(value));
  ::testing::StringMatchResultListener note;
  got.push_back(t.m.MatchAndExplain(value, &note));
  Matcher<V> copy = t.m;
  got.push_back(copy.Matches(value));
  got.push_back(!Matcher<V>(::testing::Not(copy)).Matches(value));
  std::ostringstream is, isnt;
  t.m.DescribeTo(&is);
  t.m.DescribeNegationTo(&isnt);
  Rec rec("match");
  rec.str("kind", kind).raw("m", t.json).raw("v", json).nums("got", got).bytes("note", note.str()).bytes("is", is.str()).bytes("isnt", isnt.str()).emit();
}

// ------------------------------------------------------------------ macros
struct Prog { Rng* r; std::vector<std::pair<int, int>> steps; };  // (form, code); value is the index
std::vector<int>* g_log;
absl::Status St(int code) { return code ? absl::Status((absl::StatusCode)code, "no") : absl::OkStatus(); }
absl::Status Call(int i, int code) { g_log->push_back(i); return St(code); }
absl::StatusOr<int> CallOr(int i, int code) { g_log->push_back(i); if (code) return St(code); return i + 100; }
absl::StatusOr<std::pair<int, std::unique_ptr<int>>> CallPair(int i, int code) { g_log->push_back(i); if (code) return St(code); return std::make_pair(i, std::make_unique<int>(i + 200)); }
void Body(const std::vector<std::pair<int, int>>& steps, int& sum) {
  for (size_t k = 0; k < steps.size(); ++k) {
    const int i = (int)k, code = steps[k].second;
    switch (steps[k].first) {
      case 0: MBO_EXPECT_OK(Call(i, code)); break;
      case 1: MBO_EXPECT_OK(CallOr(i, code)); break;
      case 2: MBO_ASSERT_OK(Call(i, code)); break;
      case 3: MBO_ASSERT_OK(CallOr(i, code)); break;
      case 4: { MBO_ASSERT_OK_AND_ASSIGN(const int v, CallOr(i, code)); sum += v; break; }
      case 5: { int v = 7; MBO_ASSERT_OK_AND_ASSIGN(v, CallOr(i, code)); sum += v; break; }
      case 6: { MBO_ASSERT_OK_AND_MOVE_TO(CallPair(i, code), const auto [a, b]); sum += a + *b; break; }
      case 7: { MBO_ASSERT_OK_AND_MOVE_TO(CallPair(i, code), auto p); sum += p.first + *p.second; break; }
      case 8: EXPECT_OK(Call(i, code)); break;
      case 9: ASSERT_OK(CallOr(i, code)); break;
      case 10: { ASSERT_OK_AND_ASSIGN(auto v, CallOr(i, code)); sum += v; break; }
    }
    sum += 1;
  }
}
void Macros(Rng& r) {
  std::vector<std::pair<int, int>> steps;
  for (size_t n = 1 + r.below(5); n; --n) steps.emplace_back((int)r.below(11), r.chance(70) ? 0 : (int)(1 + r.below(16)));
  std::vector<int> log;
  g_log = &log;
  int sum = 0;
  std::vector<int> soft, hard;
  {
    ::testing::TestPartResultArray results;
    {
      ::testing::ScopedFakeTestPartResultReporter reporter(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ALL_THREADS, &results);
      Body(steps, sum);
    }
    int nsoft = 0, nhard = 0;
    for (int i = 0; i < results.size(); ++i) (results.GetTestPartResult(i).fatally_failed() ? nhard : nsoft) += results.GetTestPartResult(i).failed();
    Rec rec("macros");
    rec.raw("steps", J(steps)).nums("log", log).num("sum", sum).num("soft", nsoft).num("hard", nhard).emit();
  }
}
}  // namespace

// A matcher used after what it was made from is gone, in a process of its own.
void Stored() {
#if defined(__SANITIZE_ADDRESS__)
  for (const char* gone : {"transformer", "matcher"}) {
    fflush(stdout);
    std::cout.flush();
    const pid_t child = fork();
    if (child == 0) {
      close(1);
      close(2);
      const bool one = *gone == 't';
      auto f = std::make_unique<std::function<int(int)>>([add = Ints{1, 2, 3}](int v) { return v + add[1]; });
      auto m = std::make_unique<Matcher<const Ints&>>(::testing::ElementsAre(3, 4));
      const auto made = mt::WhenTransformedBy(*f, *m);
      if (!one) m.reset();
      const Matcher<const Ints&> stored = made;
      if (one) f.reset();
      _exit(stored.Matches(Ints{1, 2}) && !stored.Matches(Ints{1, 3}) ? 0 : 1);
    }
    int status = 0;
    waitpid(child, &status, 0);
    Rec("stored").str("what", "WhenTransformedBy").str("gone", gone).boolean("fine", status == 0).emit();
  }
#endif
}
int main(int argc, char** argv) {
  ::testing::InitGoogleTest();
  Rng r(atoi(argv[1]));
  const int n = std::string_view(argv[2]) == "thorough" ? 6000 : 900;
  Stored();
  for (int i = 0; i < n; ++i) {
    kept.clear();
    { auto t = IntM(r, (int)r.below(3)); int v = (int)r.below(8) - 2; Judge("int", t, v, J(v)); }
    {
      auto t = SeqM(r, (int)r.below(3));
      Ints v = RandomInts(r);
      Judge("seq", t, v, "{\"cap\":" + J((int)v.capacity()) + F("s", J(v)) + "}");
      if (r.chance(50)) v.reserve(r.below(12));
      Judge("seq", CapM(r, v), v, "{\"cap\":" + J((int)v.capacity()) + F("s", J(v)) + "}");
    }
    {
      auto t = TextM(r, (int)r.below(3));
      std::string v = Text(r);
      if (r.chance(40)) { size_t at = t.json.find("\"s\":["); (void)at; }
      Judge("text", t, std::string_view(v), J(v));
    }
    {  // the text itself and what dropping its indentation leaves
      std::string t = Text(r), d = mbo::strings::DropIndent(t);
      for (const std::string& v : {t, d, d + "\n", t + " "}) {
        Judge("text", Term<std::string_view>{K("dropped", F("s", J(t))), mt::WithDropIndent(mt::EqualsText(t))}, std::string_view(v), J(v));
        Judge("text", Term<std::string_view>{K("text", F("s", J(t))), mt::EqualsText(t)}, std::string_view(v), J(v));
      }
    }
    { auto t = StatusM<absl::Status>(r, (int)r.below(3)); auto v = RandomStatus(r); Judge("status", t, v, Json(v)); }
    {
      auto t = StatusM<absl::StatusOr<int>>(r, (int)r.below(3));
      absl::Status s = RandomStatus(r);
      absl::StatusOr<int> v = (int)r.below(6) - 1;
      if (!s.ok()) v = s;
      Judge("statusor", t, v, Json(v));
    }
    {  // subjects of another type than the elements
      std::vector<std::string> words{"a", "bc", Text(r)};
      std::map<std::string, int> m{{"a", 1}, {Text(r), 2}};
      std::vector<std::pair<std::string, std::string>> pairs{{"a", "b"}, {"c", Text(r)}};
      std::string v = r.chance(50) ? "bc" : "a";
      const char* p = v.c_str();
      std::vector<int> got{Matcher<const char*>(mt::IsElementOf(words)).Matches(p), Matcher<std::string_view>(mt::IsElementOf(words)).Matches(v)};
      Rec("hetero").raw("s", J(words)).bytes("v", v).nums("got", got).emit();
      std::vector<std::string> keys;
      for (auto& [k, x] : m) keys.push_back(k);
      Rec("hetero").raw("s", J(keys)).bytes("v", v).nums("got", std::vector<int>{Matcher<std::string_view>(mt::IsKeyOf(m)).Matches(v), Matcher<std::string>(mt::IsKeyOf(m)).Matches(v)}).emit();
      std::pair<const char*, std::string_view> q{p, r.chance(50) ? "b" : ""};
      Rec("hetero").raw("s", J(pairs)).raw("v", "[" + J(std::string_view(p)) + "," + J(q.second) + "]").nums("got", std::vector<int>{Matcher<std::pair<const char*, std::string_view>>(mt::IsElementOf(pairs)).Matches(q)}).emit();
      std::optional<int> none, some = 0;
      Rec("none").nums("got", std::vector<int>{Matcher<std::optional<int>>(mt::IsNullopt()).Matches(none), !Matcher<std::optional<int>>(mt::IsNullopt()).Matches(some)}).emit();
    }
    Macros(r);
  }
}
