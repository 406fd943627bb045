// Type-erased scans over many containers: whole loops, histories of several iterators,
// reading at the end in processes of their own; and container conversions.
// argv: seed tier
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "trace.h"
#include "mbo/container/any_scan.h"
#include "mbo/container/convert_container.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
using namespace vf;
using namespace mbo::container;
static int Val(int v) { return v; }
static int Val(long v) { return (int)v; }
static int Val(std::string_view s) { return s.empty() ? 0 : s.size() < 40 || s.substr(0, 40) != std::string(40, '#') ? -100 : atoi(std::string(s.substr(40)).c_str()); }
static int Val(const std::string& s) { return Val(std::string_view(s)); }
static int Val(const char* s) { return Val(std::string_view(s)); }
template<class A, class B> int Val(const std::pair<A, B>& p) { return Val(p.first) * 100 + Val(p.second); }
static const std::string& Text(int x) { static std::map<int, std::string> s; auto& r = s[x]; if (x && r.empty()) r = std::string(40, (char)35) + std::to_string(100000 + x).substr(1); return r; }
template<class V> struct MkT { static V go(int x) { return V(x); } };
template<> struct MkT<std::string> { static std::string go(int x) { return Text(x); } };
template<> struct MkT<std::string_view> { static std::string_view go(int x) { return Text(x); } };
template<> struct MkT<const char*> { static const char* go(int x) { return Text(x).c_str(); } };
template<class A, class B> struct MkT<std::pair<A, B>> { static std::pair<A, B> go(int x) { return {MkT<std::remove_const_t<A>>::go(x / 100), MkT<B>::go(x % 100)}; } };
template<class V> V Mk(int x) { return MkT<V>::go(x); }
template<class C> C Fill(const std::vector<int>& xs) {
  using V = typename C::value_type;
  C c{};
  if constexpr (requires { c.push_back(Mk<V>(1)); }) for (int x : xs) c.push_back(Mk<V>(x));
  else if constexpr (requires { c.insert(Mk<V>(1)); }) for (int x : xs) c.insert(Mk<V>(x));
  else if constexpr (requires { c.push_front(Mk<V>(1)); }) for (size_t i = xs.size(); i-- > 0;) c.push_front(Mk<V>(xs[i]));
  else { size_t i = 0; for (auto& v : c) v = Mk<V>(i < xs.size() ? xs[i] : (int)i + 50), ++i; }
  return c;
}
template<class C> std::vector<int> Vals(const C& c) { std::vector<int> r; for (const auto& v : c) r.push_back(Val(v)); return r; }
struct Op { const char* o; int t = 1, s = 1, i = 0, x = 0; };
static std::string Arrs(const std::vector<std::vector<int>>& v) {
  std::string s = "[";
  for (auto& a : v) { if (s.size() > 1) s += ","; s += "["; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]); s += "]"; }
  return s + "]";
}
constexpr int kEnd = -99;
template<class F> bool Dies(F f) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); f(); _exit(0); }
  int st = 0; waitpid(pid, &st, 0);
  return st != 0;
}
// S: scan (maybe const); under: the container if the scan only refers to it, else null
template<class It, bool kByRef, class S, class C> void History(const char* kind, S& scan, C* under, const std::vector<int>& items, Rng& g) {
  Rec("reset").str("kind", kind).nums("items", items).emit();
  auto loop = [&] {
    std::vector<int> got; bool own = true;
    auto u = under ? under->begin() : decltype(under->begin()){};
    for (auto&& v : scan) {
      got.push_back(Val(v));
      if constexpr (kByRef) if (under) { own = own && (const void*)&v == (const void*)&*u; ++u; }
      if (got.size() > 300) break;
    }
    Rec("loop").nums("got", got).num("size", scan.size()).boolean("empty", scan.empty()).boolean("own", own).emit();
  };
  loop();
  auto begin = [&] { if constexpr (std::is_same_v<It, typename S::iterator>) return scan.begin(); else if (g.chance(50)) return scan.cbegin(); else return std::as_const(scan).begin(); };
  auto end = [&] { if constexpr (std::is_same_v<It, typename S::iterator>) return g.chance(50) ? scan.end() : It(); else return g.chance(50) ? scan.cend() : std::as_const(scan).end(); };
  It it[4] = {begin(), begin(), begin(), begin()};
  size_t pos[4] = {0, 0, 0, 0};  // only to choose valid operations
  size_t n = items.size();
  auto emit = [&](const Op& e, int ret) {
    std::vector<std::vector<int>> at(3);
    std::vector<std::string> same;
    std::string sm = "[";
    for (int t = 1; t <= 3; ++t) {
      bool e1 = it[t] == end();
      bool e2 = !(it[t] != end());
      at[t - 1].push_back(e1 ? kEnd : Val(*it[t]));
      if (e1 != e2) at[t - 1].push_back(-98);
      if constexpr (kByRef) { auto* p = it[t].operator->(); at[t - 1].push_back(p ? Val(*p) : kEnd); }
      for (int u = 1; u <= 3; ++u) { sm += sm.size() > 1 ? "," : ""; sm += it[t] == it[u] ? "true" : "false"; }
    }
    Rec("do").str("o", e.o).num("t", e.t).num("s", e.s).num("i", e.i).num("x", e.x).num("ret", ret).boolean("byref", kByRef).raw("at", Arrs(at)).raw("same", sm + "]")
        .num("size", scan.size()).boolean("empty", scan.empty()).nums("under", under ? Vals(*under) : std::vector<int>{}).emit();
  };
  for (int k = 0; k < 25; ++k) {
    Op e{"", (int)g.below(3) + 1, (int)g.below(3) + 1, (int)g.below(n ? n : 1), 10 + (int)g.below(80)};
    int ret = 0;
    bool has = pos[e.t] < n;
    switch (g.below(12)) {
      case 0: e.o = "begin"; it[e.t] = begin(); pos[e.t] = 0; break;
      case 1: if (g.chance(60)) continue; e.o = "end"; it[e.t] = end(); pos[e.t] = n; break;
      case 2: e.o = "copy"; it[e.t] = it[e.s]; pos[e.t] = pos[e.s]; break;
      case 3: e.o = "copy"; { It c(it[e.s]); it[e.t] = std::move(c); } pos[e.t] = pos[e.s]; break;
      case 4: case 5: case 6: if (!has) continue; e.o = "next"; if (&++it[e.t] != &it[e.t]) ret = -5; ++pos[e.t]; break;
      case 7: if (!has) continue; e.o = "postread"; ret = Val(*it[e.t]++); ++pos[e.t]; break;
      case 8: if (!has || e.s == e.t) continue; e.o = "post"; it[e.s] = it[e.t]++; pos[e.s] = pos[e.t]; ++pos[e.t]; break;
      case 9: if (!has) continue; e.o = "read"; ret = Val(*it[e.t]); break;
      case 10:
        if constexpr (kByRef && std::is_same_v<decltype(*it[0]), int&> || kByRef && std::is_same_v<decltype(*it[0]), std::string&>) {
          if (!has) continue;
          e.o = "write"; *it[e.t] = Mk<std::remove_cvref_t<decltype(*it[0])>>(e.x); break;
        } else continue;
      default:
        if constexpr (requires { *under->begin() = Mk<typename C::value_type>(1); }) {
          if (!under || !n) continue;
          e.o = "under"; *std::next(under->begin(), e.i) = Mk<typename C::value_type>(e.x); break;
        } else continue;
    }
    emit(e, ret);
  }
  loop();
}
template<bool kByRef, class S, class C> void Kinds(const char* kind, S scan, C* under, const std::vector<int>& items, Rng& g) {
  const S& c = scan;
  static_assert(std::is_same_v<decltype(c.cbegin()), typename S::const_iterator>);
  History<typename S::iterator, kByRef>(kind, scan, under, items, g);
  auto now = under ? Vals(*under) : Vals(scan);
  History<typename S::const_iterator, kByRef>(kind, scan, under, now, g);
  now = under ? Vals(*under) : Vals(scan);
  S copy = scan;
  History<typename S::iterator, kByRef>(kind, copy, under, now, g);
}
template<class It> int Deref(const It& it) { return Val(*it); }
template<class S> int AtEnd(S& scan) { typename S::iterator it = scan.begin(); while (it != scan.end()) ++it; return Deref(it); }
template<class S> int AtNone() { typename S::iterator it; return Deref(it); }
template<class S> void Over(S scan) {
  Rec("over").boolean("died", Dies([&] { AtEnd(scan); })).emit();
  Rec("over").boolean("died", Dies([&] { AtNone<S>(); })).emit();
}
static std::vector<int> Some(Rng& g, size_t n) { std::vector<int> r; int base = g.below(5) + 1; for (size_t i = 0; i < n; ++i) r.push_back(base + (i * 37 + 11) % 90); return r; }
// V: what is scanned by reference; W: what is scanned by conversion
template<class C, class V, class W, bool kMutable> void All(const char* kind, Rng& g, size_t max = 6) {
  for (size_t n = 0; n <= max; n = n < 3 ? n + 1 : n + 2) {
    auto xs = Some(g, n);
    C c = Fill<C>(xs);
    const C& cc = c;
    if constexpr (kMutable) Kinds<true>(kind, AnyScan<V>(MakeAnyScan(c)), &c, Vals(c), g);
    Kinds<true>(kind, AnyScan<const V>(MakeAnyScan(cc)), &c, Vals(c), g);
    Kinds<true>(kind, ConstScan<V>(MakeConstScan(cc)), &c, Vals(c), g);
    if constexpr (kMutable) Kinds<true>(kind, AnyScan<V>(MakeAnyScan(C(c))), (C*)nullptr, Vals(c), g);
    Kinds<true>(kind, ConstScan<V>(MakeConstScan(C(c))), (C*)nullptr, Vals(c), g);
    Kinds<false>(kind, ConvertingScan<W>(MakeConvertingScan(cc)), &c, Vals(c), g);
    Kinds<false>(kind, ConvertingScan<W>(MakeConvertingScan(C(c))), (C*)nullptr, Vals(c), g);
    if (n < 2) { Over(ConstScan<V>(MakeConstScan(cc))); Over(ConvertingScan<W>(MakeConvertingScan(cc))); Over(AnyScan<const V>(MakeAnyScan(cc))); }
  }
}
template<class V, class W> void Lists(Rng& g) {
  auto run = [&](std::initializer_list<V> l) {
    std::vector<int> xs = Vals(l);
    Kinds<true>("ilist", AnyScan<const V>(MakeAnyScan(l)), &l, xs, g);
    Kinds<true>("ilist", ConstScan<V>(MakeConstScan(l)), &l, xs, g);
    Kinds<true>("ilist", ConstScan<V>(l), &l, xs, g);
    Kinds<false>("ilist", ConvertingScan<W>(MakeConvertingScan(l)), &l, xs, g);
    Kinds<false>("ilist", ConvertingScan<V>(l), &l, xs, g);
  };
  run({});
  run({Mk<V>(3)});
  run({Mk<V>(4), Mk<V>(9), Mk<V>(2)});
}
template<class Out, class C, class... F> void Convert(const char* kind, const std::vector<int>& xs, int plus, F... f) {
  auto sorted = [](std::vector<int> v, bool un) { if (un) std::sort(v.begin(), v.end()); return v; };
  constexpr bool un = requires(Out o) { o.bucket_count(); };
  C c = Fill<C>(xs);
  auto in = Vals(c);
  auto rec = [&](const Out& o, const std::vector<int>& after) { Rec("convert").str("kind", kind).nums("items", in).num("plus", plus).nums("out", sorted(Vals(o), un)).nums("after", after).emit(); };
  { const Out o = ConvertContainer(std::as_const(c), f...); rec(o, Vals(c)); }
  { Out o = ConvertContainer(c, f...); rec(o, Vals(c)); }
  { C d = c; Out o = ConvertContainer(std::move(d), f...); rec(o, {}); }
  { Out o = ConvertContainer(C(c), f...); rec(o, {}); }
}
template<class Out, class V, class... F> void ConvertList(const char* kind, int plus, F... f) {
  auto run = [&](std::initializer_list<V> l) { const Out o = ConvertContainer(l, f...); Rec("convert").str("kind", kind).nums("items", Vals(l)).num("plus", plus).nums("out", Vals(o)).nums("after", Vals(l)).emit(); };
  run({Mk<V>(5), Mk<V>(3), Mk<V>(5), Mk<V>(7)});
  run({Mk<V>(9)});
}
int main(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  Rng g(seed);
  using std::string; using std::string_view;
  for (int rep = 0; rep < (th ? 12 : 2); ++rep) {
#if VF_SET == 0
    All<std::vector<int>, int, long, true>("vector", g);
    All<std::vector<string>, string, string_view, true>("vectors", g);
    All<std::list<string>, string, string, true>("lists", g);
    All<std::deque<int>, int, int, true>("deque", g, 40);
    All<std::array<int, 3>, int, long, true>("array", g, 1);
    All<LimitedVector<string, 7>, string, string_view, true>("limited", g);
#elif VF_SET == 1
    All<std::set<string>, string, string_view, false>("set", g);
    All<std::unordered_set<int>, int, long, false>("uset", g);
    All<std::multiset<int>, int, int, false>("multiset", g);
    All<LimitedSet<int, 7>, int, long, false>("limitedset", g);
    All<std::map<int, string>, std::pair<const int, string>, std::pair<int, string_view>, true>("map", g);
    All<std::unordered_map<int, int>, std::pair<const int, int>, std::pair<int, int>, true>("umap", g);
    All<std::vector<std::pair<int, int>>, std::pair<int, int>, std::pair<const int, long>, true>("pairs", g);
    Lists<int, long>(g); Lists<string, string_view>(g); Lists<std::pair<int, int>, std::pair<int, long>>(g);
#else
    Rec("reset").str("kind", "convert").nums("items", std::vector<int>{}).emit();
    for (int n = 0; n < 12; ++n) {
      std::vector<int> xs;
      for (int i = 0; i < n; ++i) xs.push_back(1 + g.below(n % 3 == 0 ? 4 : 60));
      Convert<std::vector<string>, std::vector<string>>("seq", xs, 0);
      Convert<std::vector<string>, std::vector<string_view>>("seq", xs, 0);
      Convert<std::vector<string_view>, std::list<const char*>>("seq", xs, 0);
      Convert<std::deque<string>, std::vector<const char*>>("seq", xs, 0);
      Convert<std::list<int>, std::vector<int>>("seq", xs, 0);
      Convert<std::set<string>, std::vector<string>>("set", xs, 0);
      Convert<std::set<string>, std::deque<string_view>>("set", xs, 0);
      Convert<std::set<int>, std::list<int>>("set", xs, 0);
      Convert<std::multiset<string>, std::vector<string>>("multiset", xs, 0);
      Convert<std::unordered_set<string>, std::vector<string>>("set", xs, 0);
      Convert<std::unordered_multiset<int>, std::vector<int>>("multiset", xs, 0);
      Convert<LimitedVector<string, 12>, std::vector<string>>("seq", xs, 0);
      Convert<LimitedSet<int, 12>, std::vector<int>>("set", xs, 0);
      Convert<std::vector<string>, std::set<string>>("seq", xs, 0);
      Convert<std::vector<int>, std::unordered_set<int>>("seq", xs, 0);
      Convert<std::vector<string>, LimitedVector<string, 12>>("seq", xs, 0);
      Convert<std::vector<int>, std::vector<int>>("seq", xs, 3, [](int x) { return x + 3; });
      Convert<std::set<string>, std::vector<int>>("set", xs, 2, [](int x) { return Text(x + 2); });
      Convert<std::vector<int>, std::vector<string>>("seq", xs, 0, [](const string& x) { return Val(x); });
      Convert<std::vector<long>, std::list<string_view>>("seq", xs, 7, [](string_view x) { return (long)Val(x) + 7; });
      Convert<std::multiset<int>, std::deque<string>>("multiset", xs, 1, [](string x) { return Val(x) + 1; });
    }
    ConvertList<std::vector<string>, const char*>("seq", 0);
    ConvertList<std::set<int>, int>("set", 0);
    ConvertList<std::vector<string>, string_view>("seq", 0);
    ConvertList<std::multiset<int>, string>("multiset", 4, [](const string& s) { return Val(s) + 4; });
    if (rep > 2) break;
#endif
  }
}
