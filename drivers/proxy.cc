// Container proxies over several containers and holders, opaque containers, and typed views.
// argv: seed tier
#include <deque>
#include <list>
#include <set>
#include <array>
#include <memory>
#include <ranges>
#include <functional>
#include "trace.h"
#include "absl/hash/hash.h"
#include "mbo/types/container_proxy.h"
#include "mbo/types/opaque.h"
#include "mbo/types/typed_view.h"
using namespace vf;
using namespace mbo::types;
namespace std { MBO_TYPES_OPAQUE_HOOKS(std::vector<std::string>) MBO_TYPES_OPAQUE_HOOKS(std::deque<int>) MBO_TYPES_OPAQUE_HOOKS(std::list<int>) MBO_TYPES_OPAQUE_HOOKS(std::vector<int>) }
static int Val(int v) { return v; }
static int Val(const std::string& s) { return s.empty() ? 0 : s.size() < 40 || s.substr(0, 40) != std::string(40, '#') ? -100 : atoi(s.c_str() + 40); }
template<class V> V Mk(int x) {
  if constexpr (std::is_same_v<V, std::string>) return x == 0 ? std::string() : std::string(40, '#') + std::to_string(x);
  else return V(x);
}
static const char* Text(int x) { static std::string s[100]; auto& r = s[x + 2]; if (r.empty()) r = Mk<std::string>(x); return r.c_str(); }
// a struct holding the container behind a pointer, with accessors
template<class C> struct Held {
  using element_type = C;
  std::unique_ptr<C> data = std::make_unique<C>();
  C& GetData() { return *data; }
  const C& GetData() const { return *data; }
};
// one holding it directly, with dereferencing operators
template<class C> struct Direct {
  using element_type = C;
  C data{};
  C& operator*() { return data; }
  const C& operator*() const { return data; }
  friend bool operator==(const Direct& a, const Direct& b) { return a.data == b.data; }
  friend auto operator<=>(const Direct& a, const Direct& b) { return a.data <=> b.data; }
};
namespace std { template<class C> struct hash<Direct<C>> { size_t operator()(const Direct<C>& d) const { return d.data.size(); } }; }
template<class C> using HeldP = ContainerProxy<Held<C>, C, &Held<C>::GetData, &Held<C>::GetData>;
template<class C> using DirectP = ContainerProxy<Direct<C>, C>;
struct Args { int i = 0, x = 0; };
struct Variant { std::string o; int need; std::function<int(const Args&)> f; };  // need: 1 an element, 2 index in range
template<class C> std::vector<int> Vals(const C& c) { std::vector<int> r; for (const auto& v : c) r.push_back(Val(v)); return r; }
template<class I, class E> std::vector<int> Walk(I i, E e) { std::vector<int> r; for (; i != e; ++i) { if (r.size() > 300) break; r.push_back(Val(*i)); } return r; }
static std::string Arrs(const std::vector<std::vector<int>>& v) {
  std::string s = "[";
  for (auto& a : v) { if (s.size() > 1) s += ","; s += "["; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]); s += "]"; }
  return s + "]";
}
template<class P> struct World {
  P p;
  const P& c = p;
  using C = std::remove_cvref_t<decltype(*std::declval<P&>().begin())>;
  using V = typename P::value_type;
  std::vector<Variant> ops;
  auto& raw() { if constexpr (requires { p.data; }) { if constexpr (requires { *p.data; }) return *p.data; else return p.data; } else return **static_cast<typename std::remove_cvref_t<decltype(Base(p))>*>(&p); }
  template<class T, class K, auto G, auto GC> static T& Base(ContainerProxy<T, K, G, GC>& q) { return q; }
  void Setup() {
    auto add = [&](const char* o, int need, auto f) { ops.push_back({o, need, f}); };
    using A = const Args&;
    if constexpr (requires { p.push_back(std::declval<const V&>()); }) add("push_back", 0, [&](A a) { const V v = Mk<V>(a.x); p.push_back(v); return 0; });
    if constexpr (requires { p.push_back(std::declval<V>()); }) add("push_back", 0, [&](A a) { p.push_back(Mk<V>(a.x)); return 0; });
    if constexpr (requires { p.push_front(std::declval<const V&>()); }) add("push_front", 0, [&](A a) { const V v = Mk<V>(a.x); p.push_front(v); return 0; });
    if constexpr (requires { p.push_front(std::declval<V>()); }) add("push_front", 0, [&](A a) { p.push_front(Mk<V>(a.x)); return 0; });
    if constexpr (requires { p.emplace_back(std::declval<V>()); }) add("emplace_back", 0, [&](A a) { auto& r = p.emplace_back(Mk<V>(a.x)); return &r == &p.back() ? Val(r) : -5; });
    if constexpr (requires { p.emplace_front(std::declval<V>()); }) add("emplace_front", 0, [&](A a) { auto& r = p.emplace_front(Mk<V>(a.x)); return &r == &p.front() ? Val(r) : -5; });
    if constexpr (std::is_same_v<V, std::string>) {
      if constexpr (requires { p.emplace_back("", 1); }) add("emplace_back", 0, [&](A a) { return Val(p.emplace_back(Text(a.x), strlen(Text(a.x)))); });
      if constexpr (requires { p.emplace_front("", 1); }) add("emplace_front", 0, [&](A a) { return Val(p.emplace_front(Text(a.x), strlen(Text(a.x)))); });
    }
    if constexpr (requires { p.pop_back(); }) add("pop_back", 1, [&](A) { p.pop_back(); return 0; });
    if constexpr (requires { p.pop_front(); }) add("pop_front", 1, [&](A) { p.pop_front(); return 0; });
    if constexpr (requires { p.clear(); }) add("clear", 0, [&](A) { p.clear(); return 0; });
    if constexpr (requires { p.reserve(3); }) add("reserve", 0, [&](A a) { p.reserve(a.i + 1); return p.capacity() >= (size_t)a.i + 1 ? 0 : -5; });
    if constexpr (requires { p.resize(3); }) add("resize", 0, [&](A a) { p.resize(a.i); return 0; });
    if constexpr (requires { p.at(0); }) {
      add("at", 0, [&](A a) { try { return Val(p.at(a.i)); } catch (const std::exception&) { return -1; } });
      add("at", 0, [&](A a) { try { return Val(c.at(a.i)); } catch (const std::exception&) { return -1; } });
      add("set", 2, [&](A a) { p.at(a.i) = Mk<V>(a.x); return 0; });
    }
    if constexpr (requires { p[0]; }) {
      add("at", 2, [&](A a) { return Val(p[a.i]); });
      add("at", 2, [&](A a) { return &p[a.i] == &c[a.i] ? Val(c[a.i]) : -5; });
      add("set", 2, [&](A a) { p[a.i] = Mk<V>(a.x); return 0; });
    }
    if constexpr (requires { p.front() = std::declval<V>(); }) {
      add("front", 1, [&](A) { return Val(p.front()); });
      add("front", 1, [&](A) { return &c.front() == &p.front() ? Val(c.front()) : -5; });
      add("setfront", 1, [&](A a) { p.front() = Mk<V>(a.x); return 0; });
    }
    if constexpr (requires { p.back() = std::declval<V>(); }) {
      add("back", 1, [&](A) { return Val(p.back()); });
      add("back", 1, [&](A) { return &c.back() == &p.back() ? Val(c.back()) : -5; });
      add("setback", 1, [&](A a) { p.back() = Mk<V>(a.x); return 0; });
    }
    if constexpr (requires { *p.begin() = std::declval<V>(); }) add("set", 2, [&](A a) { *std::next(p.begin(), a.i) = Mk<V>(a.x); return 0; });
    if constexpr (requires { *p.rbegin() = std::declval<V>(); }) add("set", 2, [&](A a) { *std::next(p.rbegin(), p.size() - 1 - a.i) = Mk<V>(a.x); return 0; });
    // from the container's side
    if constexpr (requires { raw().push_back(std::declval<V>()); }) add("push_back", 0, [&](A a) { raw().push_back(Mk<V>(a.x)); return 0; });
    if constexpr (requires { raw().pop_back(); }) add("pop_back", 1, [&](A) { raw().pop_back(); return 0; });
    if constexpr (requires { *raw().begin() = std::declval<V>(); }) add("set", 2, [&](A a) { *std::next(raw().begin(), a.i) = Mk<V>(a.x); return 0; });
  }
  void Seen(Rec& r) {
    std::vector<std::vector<int>> f{Walk(p.begin(), p.end()), Walk(c.begin(), c.end()), Vals(p), Vals(c)}, b;
    if constexpr (requires { c.cbegin(); }) f.push_back(Walk(c.cbegin(), c.cend()));
    if constexpr (requires { c.rbegin(); }) { b.push_back(Walk(p.rbegin(), p.rend())); b.push_back(Walk(c.rbegin(), c.rend())); }
    if constexpr (requires { c.crbegin(); }) b.push_back(Walk(c.crbegin(), c.crend()));
    if constexpr (requires { c[0]; }) { std::vector<int> q; for (size_t i = 0; i < raw().size(); ++i) q.push_back(Val(c[i])); f.push_back(q); }
    std::vector<int> n{(int)std::distance(c.begin(), c.end())};
    if constexpr (requires { c.size(); }) n.push_back(c.size());
    std::string pairs = "[";
    auto pair = [&](auto x, auto y) { pairs += (pairs.size() > 1 ? ",[\"" : "[\"") + std::to_string(x) + "\",\"" + std::to_string(y) + "\"]"; };
    if constexpr (requires { c.max_size(); }) pair(c.max_size(), raw().max_size());
    if constexpr (requires { c.capacity(); }) pair(c.capacity(), raw().capacity());
    // elements are the container's own
    if (!raw().empty()) { pair(&*p.begin() == &*raw().begin() ? 1 : 0, 1); pair(&*c.begin() == &*raw().begin() ? 1 : 0, 1); }
    r.raw("fwd", Arrs(f)).raw("bwd", Arrs(b)).nums("nums", n).boolean("empty", c.empty()).raw("pairs", pairs + "]").nums("raw", Vals(raw()));
  }
  void Reset(const char* kind) { Rec("reset").str("kind", kind).nums("items", Vals(raw())).emit(); }
  void Do(const Variant& v, Args a) {
    if (v.need && raw().empty()) return;
    if (v.need == 2 && a.i >= (int)raw().size()) return;
    std::string o = v.o;
    if (o == "setfront") { o = "set"; a.i = 0; }
    if (o == "setback") { o = "set"; a.i = raw().size() - 1; }
    int ret = v.f(a);
    Rec r("do");
    r.str("o", o).num("i", a.i).num("x", a.x).num("ret", ret);
    Seen(r);
    r.emit();
  }
  template<class X> void Cmp(const X& other, const std::vector<int>& items) {
    std::vector<int> b(6, 2);
    if constexpr (requires { { c == other } -> std::convertible_to<bool>; }) { b[0] = c == other; b[1] = c != other; }
    if constexpr (requires { { c <=> other } -> std::convertible_to<std::partial_ordering>; }) { auto o = c <=> other; b[2] = o < 0; b[3] = o <= 0; b[4] = o > 0; b[5] = o >= 0; }
    Rec("cmp").nums("b", b).nums("other", items).emit();
  }
};
template<class P> void All(const char* kind, uint64_t seed, bool th, int minlen = 0) {
  Rng g(seed * 31 + kind[0] + kind[1] * 7);
  for (int n = 0; n < (th ? 100 : 25); ++n) {
    World<P> w; w.Setup();
    w.Reset(kind);
    for (int k = 0; k < 60; ++k) {
      auto& v = w.ops[g.below(w.ops.size())];
      if (v.o == "clear" && g.chance(70)) continue;
      w.Do(v, {(int)g.below(6), (int)g.below(9)});
      if constexpr (requires { w.c <=> w.c; } || requires { absl::HashOf(w.c); }) if (g.chance(20)) {
        World<P> o; o.Setup();
        for (auto x : w.raw()) o.raw().push_back(x);
        for (int q = g.below(3); q > 0; --q) { auto& z = o.ops[g.below(o.ops.size())]; if (z.o != "reserve" && !(z.need && o.raw().empty()) && z.need != 2) z.f({(int)g.below(5), (int)g.below(4)}); }
        auto items = Vals(o.raw());
        if constexpr (requires { w.c <=> w.c; }) {
          w.Cmp(o.c, items);
          w.Cmp(o.raw(), items);
        }
        Rec("hash").nums("other", items).boolean("same", absl::HashOf(w.c) == absl::HashOf(o.c)).emit();
        if constexpr (requires { std::hash<P>{}(w.c); }) Rec("hash").nums("other", items).boolean("same", std::hash<P>{}(w.c) == std::hash<P>{}(o.c)).emit();
      }
    }
  }
}
// sorted containers: reading and clearing
template<class P> void Sorted(const char* kind, uint64_t seed) {
  Rng g(seed * 77);
  for (int n = 0; n < 20; ++n) {
    World<P> w; w.Setup();
    for (int k = g.below(7); k > 0; --k) w.raw().insert((int)g.below(20));
    w.Reset(kind);
    w.Do({"at", 0, [&](const Args&) { return w.raw().size() ? Val(*w.p.begin()) : -1; }}, {0, 0});
    for (auto& v : w.ops) w.Do(v, {});
  }
}
template<class P> void Fixed(const char* kind, uint64_t seed) {
  Rng g(seed * 79);
  for (int n = 0; n < 10; ++n) {
    World<P> w; w.Setup();
    for (auto& v : w.raw()) v = Mk<std::remove_cvref_t<decltype(v)>>(g.below(9));
    w.Reset(kind);
    for (int k = 0; k < 40; ++k) w.Do(g.of(w.ops), {(int)g.below(6), (int)g.below(9)});
  }
}
template<class W> void View(const std::vector<int>& items, const std::string& steps, W&& view) {
  TypedView tv(std::move(view));
  static_assert(std::is_same_v<typename decltype(tv)::value_type, int>);
  std::vector<std::vector<int>> f;
  std::vector<int> n, e, a;
  for (int v : tv) a.push_back(v);
  f.push_back(a); a.clear();
  const auto& cv = tv;
  for (auto it = cv.begin(); it != cv.end(); ++it) a.push_back(*it);
  f.push_back(a); a.clear();
  std::ranges::for_each(cv, [&](int v) { a.push_back(v); });
  f.push_back(a); a.clear();
  std::string bools = "[", ends = "[";
  if constexpr (requires { tv.empty(); }) bools += tv.empty() ? "true" : "false";
  if constexpr (requires { cv.empty(); cv[0]; }) bools += cv.empty() ? ",true" : ",false";
  if constexpr (requires { cv.size(); }) n.push_back(cv.size());
  if constexpr (requires { tv.size(); }) n.push_back(tv.size());
  if constexpr (requires { cv[0]; }) { for (int i = 0; i < std::ranges::distance(cv); ++i) a.push_back(cv[i]); f.push_back(a); }
  if constexpr (requires { cv.front(); cv.back(); }) if (!f[0].empty()) ends += "[" + std::to_string(cv.front()) + "," + std::to_string(tv.back()) + "]";
  Rec("view").nums("items", items).raw("steps", steps).raw("fwd", Arrs(f)).nums("nums", n).raw("bools", bools + "]").raw("ends", ends + "]").emit();
}
static void Views(uint64_t seed) {
  namespace v = std::views;
  Rec("reset").str("kind", "views").nums("items", std::vector<int>{}).emit();
  Rng g(seed);
  for (int len = 0; len <= 8; ++len) for (int n = 0; n < 6; ++n) {
    std::vector<int> s;
    for (int i = 0; i < len; ++i) s.push_back(g.below(30));
    int a = g.below(len + 2), b = g.below(len + 2);
    auto S = [&](const char* f, int x, int y = 0) { return "[\"" + std::string(f) + "\"," + std::to_string(x) + "," + std::to_string(y) + "]"; };
    View(s, "[]", v::all(s));
    View(s, "[" + S("take", a) + "]", s | v::take(a));
    View(s, "[" + S("drop", a) + "]", s | v::drop(a));
    View(s, "[" + S("reverse", 0) + "]", s | v::reverse);
    View(s, "[" + S("add", 7) + "]", s | v::transform([](int x) { return x + 7; }));
    View(s, "[" + S("below", 20) + "]", s | v::take_while([](int x) { return x < 20; }));
    View(s, "[" + S("drop", a) + "," + S("take", b) + "," + S("add", 3) + "]", s | v::drop(a) | v::take(b) | v::transform([](int x) { return x + 3; }));
    View(s, "[" + S("take", a) + "," + S("reverse", 0) + "," + S("add", 1) + "," + S("drop", b) + "]", s | v::take(a) | v::reverse | v::transform([](int x) { return x + 1; }) | v::drop(b));
    View(s, "[" + S("iota", 5, len) + "]", v::iota(5, 5 + len));
    std::list<int> l(s.begin(), s.end());
    View(s, "[" + S("add", 2) + "]", l | v::transform([](int x) { return x + 2; }));
    std::deque<int> d(s.begin(), s.end());
    View(s, "[" + S("reverse", 0) + "," + S("take", a) + "]", d | v::reverse | v::take(a));
    std::map<int, int> m;
    for (int i = 0; i < len; ++i) m[i] = s[i];
    View(s, "[]", m | v::values);
    View(s, "[" + S("iota", 0, len) + "]", m | v::keys);
  }
  View({}, "[]", std::ranges::empty_view<int>());
  View({4}, "[]", std::views::single(4));
}
int main(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  All<HeldP<std::vector<int>>>("heldvec", seed, th);
  All<HeldP<std::vector<std::string>>>("Heldvecs", seed, th);
  All<HeldP<std::deque<std::string>>>("hdeque", seed, th);
  All<HeldP<std::list<int>>>("hlist", seed, th);
  All<DirectP<std::vector<int>>>("dirvec", seed, th);
  All<DirectP<std::deque<int>>>("dideque", seed, th);
  All<DirectP<std::list<std::string>>>("dlist", seed, th);
  All<OpaqueContainer<std::vector<std::string>>>("opaquevs", seed, th);
  All<OpaqueContainer<std::deque<int>>>("oqd", seed, th);
  All<OpaqueContainer<std::list<int>>>("oql", seed, th);
  All<OpaqueContainer<std::vector<int>>>("oqv", seed, th);
  Sorted<HeldP<std::set<int>>>("set", seed);
  Sorted<DirectP<std::set<int>>>("dset", seed);
  Fixed<DirectP<std::array<int, 4>>>("array", seed);
  Views(seed);
}
