// Bounded sets and maps: exhaustive lookups and single operations from states of every size,
// random histories, operations beyond the capacity in processes of their own, element lives.
// VF_CFG selects the instantiations. argv: mode(one|query|hist|over|life|misc) seed tier
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <set>
#include <stdexcept>
#include "life.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
using namespace vf;
using mbo::container::LimitedMap;
using mbo::container::LimitedSet;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
using mbo::types::CompareLess;
#ifndef VF_CFG
# define VF_CFG 0
#endif

static std::string Text(int x) {
  char b[16];
  snprintf(b, sizeof b, "%04d", x);
  return std::string(20, 'k') + b;
}
static int ValueOf(int v) { return v; }
static int ValueOf(long v) { return (int)v; }
static int ValueOf(short v) { return v; }
static int ValueOf(const std::string& s) { return s.empty() ? 0 : s.size() != 24 || s.substr(0, 20) != std::string(20, 'k') ? -100 : atoi(s.c_str() + 20); }
template<int T> static int ValueOf(const Obj<T>& o) { return o.v; }
template<typename T> T Make(int x) {
  if constexpr (std::is_same_v<T, std::string>) return x == 0 ? std::string() : Text(x);
  else return T(x);
}
// A comparator with state.
struct Dir {
  int sign = 1;
  bool operator()(int a, int b) const noexcept { return sign * a < sign * b; }
};
struct Args { std::string o; int t = 1, s = 1, a = 0, b = 0, k = 0, x = 0; std::vector<int> ks, xs; };

template<typename T> constexpr bool kHasFirst = requires(const T& v) { v.first; };
template<typename T> static int KeyOf(const T& v) { if constexpr (kHasFirst<T>) return ValueOf(v.first); else return ValueOf(v); }
template<typename T> static int MapOf(const T& v) { if constexpr (kHasFirst<T>) return ValueOf(v.second); else return 0; }

template<typename K, typename M, auto O, typename C> struct TypeFor { using type = LimitedMap<K, M, O, C>; };
template<typename K, auto O, typename C> struct TypeFor<K, void, O, C> { using type = LimitedSet<K, O, C>; };

// Slots 1 and 2 have the same type, slot 3 another one that can be converted to it.
template<typename K, typename M, auto CO, typename C, typename K3, auto DO, typename C3>
struct World {
  static constexpr bool kMap = !std::is_void_v<M>;
  using V = typename TypeFor<K, M, CO, C>::type;
  using W = typename TypeFor<K3, M, DO, C3>::type;
  static constexpr bool kLife = std::is_same_v<K, Obj<0>>;
  static constexpr size_t kPer = kMap ? 2 : 1;
  static constexpr size_t N = mbo::container::MakeLimitedOptions<CO>().kCapacity;
  static constexpr size_t D = mbo::container::MakeLimitedOptions<DO>().kCapacity;
  static constexpr bool kSortedOnly = decltype(mbo::container::MakeLimitedOptions<CO>())::Has(LimitedOptionsFlag::kRequireSortedInput);
  alignas(V) char m1[sizeof(V)]; alignas(V) char m2[sizeof(V)]; alignas(W) char m3[sizeof(W)];
  V& v1() { return *std::launder(reinterpret_cast<V*>(m1)); }
  V& v2() { return *std::launder(reinterpret_cast<V*>(m2)); }
  W& v3() { return *std::launder(reinterpret_cast<W*>(m3)); }
  int sgn = 1, sgn3 = 1;
  long id = 0;
  bool live = false;
  template<typename Cmp> static Cmp MakeCmp(int s) { if constexpr (std::is_same_v<Cmp, Dir>) return Dir{s}; else return Cmp(); }
  void Reset() { Rec("reset").num("id", ++id).nums("caps", std::vector<size_t>{N, N, D}).nums("sg", std::vector<int>{sgn, sgn, sgn3}).emit(); }
  void Start() {
    if (live) Stop();
    std::memset(m1, 0xA5, sizeof m1); std::memset(m2, 0xA5, sizeof m2); std::memset(m3, 0xA5, sizeof m3);
    if constexpr (std::is_same_v<C, Dir>) { new (m1) V(Dir{sgn}); new (m2) V(Dir{sgn}); } else { new (m1) V; new (m2) V; }
    if constexpr (std::is_same_v<C3, Dir>) new (m3) W(Dir{sgn3}); else new (m3) W;
    live = true;
    Reset();
    if constexpr (kLife) {
      LifeLog::stores() = {{(const char*)std::as_const(v1()).data(), N * kPer}, {(const char*)std::as_const(v2()).data(), N * kPer}, {(const char*)std::as_const(v3()).data(), D * kPer}};
      LifeLog::evs().clear(); LifeLog::on() = true;
    }
  }
  void Stop() {
    if (!live) return;
    v1().~V(); v2().~V(); v3().~W(); live = false;
    if constexpr (kLife) { EmitLife({0, 0, 0}, kPer); LifeLog::on() = false; Rec("end").emit(); }
  }
  static std::string Lists(const std::vector<std::vector<int>>& l) {
    std::string r = "[";
    for (auto& x : l) { if (r.size() > 1) r += ','; r += '['; for (size_t i = 0; i < x.size(); ++i) { if (i) r += ','; r += std::to_string(x[i]); } r += ']'; }
    return r + "]";
  }
  template<typename X> static std::string Show(X& x, bool full) {
    const X& c = x;
    const size_t lim = 3 * N + 40;  // guards against runaway iteration
    std::vector<std::vector<int>> k(full ? 8 : 1), v(full ? 8 : 1);
    auto put = [&](int w, const auto& e) { k[w].push_back(KeyOf(e)); v[w].push_back(MapOf(e)); };
    for (auto& e : x) { if (k[0].size() > lim) break; put(0, e); }
    if (full) {
      for (auto i = c.cbegin(); i != c.cend(); ++i) { if (k[1].size() > lim) break; put(1, *i); }
      for (auto i = x.rbegin(); i != x.rend(); ++i) { if (k[2].size() > lim) break; put(2, *i); }
      for (auto i = c.crbegin(); i != c.crend(); i++) { if (k[3].size() > lim) break; put(3, *i); }
      for (size_t i = 0; i < c.size() && i <= lim; ++i) { put(4, x.at_index(i)); put(5, *(c.data() + i)); put(6, x.begin()[i]); put(7, *(c.end() - (c.size() - i))); }
      for (int w : {2, 3}) { std::reverse(k[w].begin(), k[w].end()); std::reverse(v[w].begin(), v[w].end()); }
    }
    std::vector<int> sz = {(int)c.size(), c.empty(), (int)c.capacity(), (int)c.max_size(), (int)(x.end() - x.begin()), c.begin() + c.size() == c.end() && x.begin() <= x.end() && !(x.begin() > x.end())};
    Rec r("s");
    r.raw("k", Lists(k)).raw("x", kMap ? Lists(v) : "[]").nums("sz", sz);
    return r.take();
  }
  size_t Size(int t) { return t == 1 ? v1().size() : t == 2 ? v2().size() : v3().size(); }
  size_t CapOf(int t) { return t == 3 ? D : N; }
  template<typename X> static auto MakeVal(int k, int x) {
    if constexpr (kMap) return std::pair<const typename X::key_type, M>(Make<typename X::key_type>(k), Make<M>(x));
    else return Make<typename X::key_type>(k);
  }
  template<typename X> static auto MakeVals(const Args& e) {
    std::vector<decltype(MakeVal<X>(0, 0))> r;
    r.reserve(e.ks.size());
    for (size_t i = 0; i < e.ks.size(); ++i) r.push_back(MakeVal<X>(e.ks[i], e.xs[i]));
    return r;
  }
  template<typename X> static constexpr bool kTrans = X::kTransparent;
  // A key of another type that compares with K.
  template<typename X> static auto Foreign(const typename X::key_type& k) {
    using Key = typename X::key_type;
    if constexpr (std::is_same_v<Key, std::string>) return std::string_view(k);
    else if constexpr (std::is_same_v<Key, int>) return (long)k;
    else return k;
  }
  template<typename X, typename Cmp, size_t Cap> std::vector<int> Basic(X& x, const Args& e) {
    using Key = typename X::key_type;
    using Val = decltype(MakeVal<X>(0, 0));
    auto ix = [&](auto it) { return (int)(it - x.begin()); };
    auto both = [&](auto p) { return std::vector<int>{ix(p.first), p.second}; };
    auto at = [&](int p) { return x.begin() + p; };
    if (e.o == "insert") { const Val v = MakeVal<X>(e.k, e.x); return both(x.insert(v)); }
    if (e.o == "insertmove") return both(x.insert(MakeVal<X>(e.k, e.x)));
    if (e.o == "insertown") return both(x.insert(*at(e.b)));
    if (e.o == "erasekey") { const Key k = Make<Key>(e.k); return {(int)x.erase(k)}; }
    if (e.o == "eraseforeign") {
      Key k = Make<Key>(e.k);
      if constexpr (kTrans<X>) return {(int)x.erase(Foreign<X>(k))};
      else if constexpr (std::is_same_v<Key, std::string>) return {(int)x.erase(k.c_str())};
      else if constexpr (std::is_same_v<Key, int>) return {(int)x.erase((short)k)};
      else return {(int)x.erase(k)};
    }
    if (e.o == "eraseown") { if constexpr (kMap) return {(int)x.erase(at(e.a)->first)}; else return {(int)x.erase(*at(e.a))}; }
    if (e.o == "erase") return {ix(x.erase(at(e.a)))};
    if (e.o == "erasec") return {ix(x.erase(x.cbegin() + e.a))};
    if (e.o == "eraserange") return {ix(x.erase(at(e.a), at(e.b)))};
    if (e.o == "eraserangec") return {ix(x.erase(x.cbegin() + e.a, x.cbegin() + e.b))};
    if (e.o == "clear") { x.clear(); return {}; }
    if (e.o == "atindex") { auto& v = x.at_index(e.a); return {KeyOf(v), MapOf(v)}; }
    if (e.o == "atindexc") { auto& v = std::as_const(x).at_index(e.a); return {KeyOf(v), MapOf(v)}; }
    if (e.o == "insertrange") { auto vs = MakeVals<X>(e); x.insert(vs.begin(), vs.end()); return {}; }
    if (e.o == "make") {
      auto vs = MakeVals<X>(e); auto cmp = x.key_comp(); x.~X();
      new (&x) X(vs.begin(), vs.end(), cmp); return {};
    }
    if (e.o == "makelist" || e.o == "makeargs" || e.o == "assignlist") {
      auto vs = MakeVals<X>(e); auto cmp = x.key_comp();
      auto with = [&](auto... v) {
        if (e.o == "makelist") { std::initializer_list<Val> l = {v...}; x.~X(); new (&x) X(l, cmp); }
        else if (e.o == "assignlist") { std::initializer_list<Val> l = {v...}; x = X(l, cmp); }
        else if constexpr (kMap && sizeof...(v) > 0 && !std::is_same_v<Cmp, Dir>) {
          if constexpr (sizeof...(v) <= Cap) { x.~X(); new (&x) X(Val(v)...); }
          else { std::initializer_list<Val> l = {v...}; x.~X(); new (&x) X(l, cmp); }
        } else { std::initializer_list<Val> l = {v...}; x.~X(); new (&x) X(l, cmp); }
      };
      switch (vs.size()) {
        case 0: with(); break;
        case 1: with(vs[0]); break;
        case 2: with(vs[0], vs[1]); break;
        default: with(vs[0], vs[1], vs[2]);
      }
      return {};
    }
    if constexpr (kMap) {
      if (e.o == "emplace") return both(x.emplace(Make<Key>(e.k), Make<M>(e.x)));
      if (e.o == "emplaceown") { if (e.k) return both(x.emplace(Make<Key>(e.k), at(e.b)->second)); return both(x.emplace(at(e.a)->first, at(e.b)->second)); }
      if (e.o == "tryemplace") { const Key k = Make<Key>(e.k); return both(x.try_emplace(k, Make<M>(e.x))); }
      if (e.o == "tryemplacemove") return both(x.try_emplace(Make<Key>(e.k), Make<M>(e.x)));
      if (e.o == "tryemplaceown") { if (e.k) return both(x.try_emplace(Make<Key>(e.k), at(e.b)->second)); return both(x.try_emplace(at(e.a)->first, at(e.b)->second)); }
      if (e.o == "assign") { const Key k = Make<Key>(e.k); return both(x.insert_or_assign(k, Make<M>(e.x))); }
      if (e.o == "assignmove") { const M v = Make<M>(e.x); return both(x.insert_or_assign(Make<Key>(e.k), v)); }
      if (e.o == "assignown") { if (e.k) return both(x.insert_or_assign(Make<Key>(e.k), at(e.b)->second)); return both(x.insert_or_assign(at(e.a)->first, at(e.b)->second)); }
      if (e.o == "index") { const Key k = Make<Key>(e.k); return {ValueOf(x[k])}; }
      if (e.o == "indexmove") return {ValueOf(x[Make<Key>(e.k)])};
      if (e.o == "indexset") { x[Make<Key>(e.k)] = Make<M>(e.x); return {}; }
      if (e.o == "atset") { x.at(Make<Key>(e.k)) = Make<M>(e.x); return {}; }
      if (e.o == "write") { if (e.x % 2) at(e.a)->second = Make<M>(e.x); else x.at_index(e.a).second = Make<M>(e.x); return {}; }
    } else {
      if (e.o == "emplace") return both(x.emplace(Make<Key>(e.k)));
      if (e.o == "emplaceown") return both(x.emplace(*at(e.a)));
    }
    fprintf(stderr, "unknown op %s\n", e.o.c_str()); _exit(97);
  }
  std::vector<int> Run(const Args& e) {
    if (e.o == "copy" || e.o == "copyctor" || e.o == "move" || e.o == "movector" || e.o == "swap") {
      if (e.t == 3 || e.s == 3) { fprintf(stderr, "bad slots\n"); _exit(97); }
      V& a = e.t == 1 ? v1() : v2();
      V& b = e.s == 1 ? v1() : v2();
      if (e.o == "copy") { V* r = &(a = b); if (r != &a) return {-2}; }
      else if (e.o == "move") { V* r = &(a = std::move(b)); if (r != &a) return {-2}; }
      else if (e.o == "swap") a.swap(b);
      else if (e.o == "copyctor") { V tmp(b); a.~V(); new (&a) V(tmp); }
      else { a.~V(); new (&a) V(std::move(b)); }
      return {};
    }
    if (e.o.substr(0, 7) == "convert") {
      V& a = e.t == 1 ? v1() : v2();
      if constexpr (D <= N) {
        if (e.o == "convert") a = v3();
        else if (e.o == "convertctor") { if constexpr (!std::is_same_v<C, Dir>) { a.~V(); new (&a) V(v3()); } }
        else if (e.o == "convertmove") { a = std::move(v3()); v3().clear(); }
        else { if constexpr (!std::is_same_v<C, Dir>) { a.~V(); new (&a) V(std::move(v3())); v3().clear(); } }
      }
      return {};
    }
    return e.t == 3 ? Basic<W, C3, D>(v3(), e) : Basic<V, C, N>(e.t == 1 ? v1() : v2(), e);
  }
  static Rec& Put(Rec& r, const Args& e) {
    return r.str("o", e.o).num("t", e.t).num("s", e.s).num("a", e.a).num("b", e.b).num("k", e.k).num("x", e.x).nums("ks", e.ks).nums("xs", e.xs);
  }
  void Sizes() { EmitLife({(int)v1().size(), (int)v2().size(), (int)v3().size()}, kPer); }
  void Do(Args e) {
    if (!kMap) { e.x = 0; for (int& x : e.xs) x = 0; }
    bool ok = true;
    std::vector<int> ret;
    try { ret = Run(e); } catch (const std::runtime_error&) { ok = false; }
    if constexpr (kLife) Sizes();
    else {
      Rec r("do");
      Put(r, e).boolean("ok", ok).nums("ret", ret);
      r.raw("post", "[" + Show(v1(), e.t == 1 || e.s == 1) + "," + Show(v2(), e.t == 2 || e.s == 2) + "," + Show(v3(), e.t == 3 || e.s == 3) + "]").emit();
    }
  }
  // ------------------------------------------------------------------ lookups
  template<typename X, typename Q> static std::vector<int> Look(X& x, const Q& q) {
    auto ix = [&](auto it) { return (int)(it - x.begin()); };
    std::vector<int> r;
    auto p = x.index_of(q);
    r.push_back(p == X::npos ? -1 : (int)p);
    r.push_back(ix(x.find(q)));
    r.push_back(x.contains(q));
    r.push_back(ix(x.lower_bound(q)));
    r.push_back(ix(x.upper_bound(q)));
    auto er = x.equal_range(q);
    r.push_back(ix(er.first)); r.push_back(ix(er.second));
    r.push_back((int)x.count(q));
    return r;
  }
  template<typename X, typename Q> static void AtOf(std::vector<std::vector<int>>& v, X& x, const Q& q) {
    if constexpr (kMap) {
      try { v.push_back({ValueOf(x.at(q))}); } catch (const std::runtime_error&) { v.push_back({}); }
    }
  }
  template<typename X> void Query(int t, X& x, int k) {
    using Key = typename X::key_type;
    const X& c = x;
    const Key key = Make<Key>(k);
    std::vector<std::vector<int>> r = {Look(x, key), Look(c, key)}, v;
    AtOf(v, x, key); AtOf(v, c, key);
    if constexpr (kTrans<X> && !kLife) {
      auto f = Foreign<X>(key);
      r.push_back(Look(x, f)); r.push_back(Look(c, f));
      AtOf(v, x, f); AtOf(v, c, f);
      if constexpr (std::is_same_v<Key, std::string>) r.push_back(Look(x, key.c_str()));
      else if constexpr (std::is_same_v<Key, int>) r.push_back(Look(x, (short)k));
    }
    if constexpr (kLife) Sizes();
    else Rec("q").num("t", t).num("k", k).raw("r", Lists(r)).raw("v", Lists(v)).emit();
  }
  void Query(int t, int k) { if (t == 1) Query(t, v1(), k); else if (t == 2) Query(t, v2(), k); else Query(t, v3(), k); }
  template<typename X> void Sub(int t, X& x, const std::vector<int>& ks) {
    using Key = typename X::key_type;
    std::vector<Key> v;
    for (int k : ks) v.push_back(Make<Key>(k));
    std::vector<bool> all, any;
    all.push_back(x.contains_all(v)); any.push_back(x.contains_any(v));
    if constexpr (!kLife) { std::set<Key> s(v.begin(), v.end()); all.push_back(x.contains_all(s)); any.push_back(x.contains_any(s)); }
    if (ks.size() == 0) { std::initializer_list<Key> l = {}; all.push_back(x.contains_all(l)); any.push_back(x.contains_any(l)); }
    if (ks.size() == 2) { std::initializer_list<Key> l = {v[0], v[1]}; all.push_back(x.contains_all(l)); any.push_back(x.contains_any(l)); }
    if constexpr (kTrans<X> && !kLife) {
      using F = decltype(Foreign<X>(v[0]));
      std::vector<F> f;
      for (auto& k : v) f.push_back(Foreign<X>(k));
      all.push_back(x.contains_all(f)); any.push_back(x.contains_any(f));
      if (ks.size() == 2) { std::initializer_list<F> l = {f[0], f[1]}; all.push_back(x.contains_all(l)); any.push_back(x.contains_any(l)); }
    }
    if constexpr (kLife) { v.clear(); Sizes(); }
    else {
      auto js = [](const std::vector<bool>& b) { std::string s = "["; for (bool x : b) { if (s.size() > 1) s += ','; s += x ? "true" : "false"; } return s + "]"; };
      Rec("sub").num("t", t).nums("ks", ks).raw("all", js(all)).raw("any", js(any)).emit();
    }
  }
  void Sub(int t, const std::vector<int>& ks) { if (t == 1) Sub(t, v1(), ks); else if (t == 2) Sub(t, v2(), ks); else Sub(t, v3(), ks); }
  void KeyComp(int t, int a, int b) {
    if constexpr (!kLife) {
      auto one = [&](auto& x) {
        using Key = typename std::remove_cvref_t<decltype(x)>::key_type;
        auto vc = x.value_comp();
        bool r1 = x.key_comp()(Make<Key>(a), Make<Key>(b));
        bool r2 = vc(MakeVal<std::remove_cvref_t<decltype(x)>>(a, 1), MakeVal<std::remove_cvref_t<decltype(x)>>(b, 2));
        Rec("kc").num("t", t).num("a", a).num("b", b).raw("r", std::string("[") + (r1 ? "true" : "false") + "," + (r2 ? "true" : "false") + "]").emit();
      };
      if (t == 1) one(v1()); else if (t == 2) one(v2()); else one(v3());
    }
  }
  template<typename X, typename Y> void Cmp2(int t, int s, const X& x, const Y& y) {
    auto o = x <=> y;
    bool bs[] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
    if constexpr (!kLife) {
      std::string js;
      for (bool q : bs) js += (js.empty() ? "[" : ",") + std::string(q ? "true" : "false");
      Rec("cmp").num("t", t).num("s", s).raw("b", js + "]").num("c", o < 0 ? -1 : o > 0 ? 1 : 0).emit();
    }
  }
  static constexpr bool kCmp3 = std::is_same_v<K, K3>;
  void Cmp(int t, int s) {
    auto with = [&](auto& x) { if (s == 1) Cmp2(t, s, x, v1()); else if (s == 2) Cmp2(t, s, x, v2()); else Cmp2(t, s, x, v3()); };
    if (t == 1) with(v1()); else if (t == 2) with(v2()); else with(v3());
    if constexpr (kLife) Sizes();
  }
  // ---------------------------------------------------------------- exploration
  int SignOf(int t) { return t == 3 ? sgn3 : sgn; }
  // content of size n: even keys, in an order of insertion given by how
  void Set(int t, int n, int how = 0, int step = 2) {
    for (int i = 0; i < n; ++i) {
      int j = how == 0 ? i : how == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
      Do({.o = "emplace", .t = t, .k = (j + 1) * step, .x = (j + 1) * 3});
    }
  }
  std::vector<Args> OpsFor(int t, int n, const std::vector<int>& keys, bool own = true) {
    std::vector<Args> r;
    for (int k : keys) {
      std::vector<std::string> os = {"emplace", "insert", "insertmove", "erasekey", "eraseforeign"};
      if (kMap) for (auto o : {"tryemplace", "tryemplacemove", "assign", "assignmove", "index", "indexmove", "indexset", "atset"}) os.push_back(o);
      for (auto& o : os) r.push_back({.o = o, .t = t, .k = k, .x = 77});
      if (kMap && own) for (int b : {0, n / 2, n - 1}) if (b >= 0 && b < n) for (auto o : {"emplaceown", "tryemplaceown", "assignown"}) r.push_back({.o = o, .t = t, .a = 0, .b = b, .k = k});
    }
    for (int a = 0; a < n; ++a) {
      for (auto o : {"erase", "erasec", "eraseown", "atindex"}) r.push_back({.o = o, .t = t, .a = a});
      r.push_back({.o = "insertown", .t = t, .b = a});
      if (kMap) {
        r.push_back({.o = "write", .t = t, .a = a, .x = 78 + a});
        for (auto o : {"emplaceown", "tryemplaceown", "assignown"}) r.push_back({.o = o, .t = t, .a = a, .b = n - 1 - a});
      } else r.push_back({.o = "emplaceown", .t = t, .a = a});
    }
    for (int a : {n, n + 1}) for (auto o : {"atindex", "atindexc"}) r.push_back({.o = o, .t = t, .a = a});
    for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) {
      if (n > 8 && (a * 7 + b * 5) % 11) continue;
      r.push_back({.o = "eraserange", .t = t, .a = a, .b = b});
      r.push_back({.o = "eraserangec", .t = t, .a = a, .b = b});
    }
    r.push_back({.o = "clear", .t = t});
    int cap = CapOf(t);
    std::vector<std::vector<int>> lists = {{}, {2}, {3, 2}, {5, 3, 5}, {1, 2, 3}, {9, 7, 8}};
    for (auto& l : lists) {
      std::vector<int> xs;
      for (int k : l) xs.push_back(40 + (int)xs.size() + k);
      r.push_back({.o = "insertrange", .t = t, .ks = l, .xs = xs});
      if ((int)l.size() <= cap && !kSortedOnly) for (auto o : {"make", "makelist", "makeargs", "assignlist"}) r.push_back({.o = o, .t = t, .ks = l, .xs = xs});
    }
    if (kSortedOnly) for (auto& l : std::vector<std::vector<int>>{{}, {2}, {2, 3}, {1, 4, 6}}) if ((int)l.size() <= cap) {
      std::vector<int> l2 = l, xs(l.size(), 9);
      if (SignOf(t) < 0) std::reverse(l2.begin(), l2.end());
      for (auto o : {"make", "makelist", "assignlist"}) r.push_back({.o = o, .t = t, .ks = l2, .xs = xs});
    }
    if (t != 3) for (int s : {1, 2}) for (auto o : {"copy", "copyctor", "move", "movector", "swap"}) if (s != t || (std::string(o) != "copyctor" && std::string(o) != "movector")) r.push_back({.o = o, .t = t, .s = s});
    if (t != 3 && D <= N) {
      for (auto o : {"convert", "convertmove"}) r.push_back({.o = o, .t = t, .s = 3});
      if (!std::is_same_v<C, Dir>) for (auto o : {"convertctor", "convertmovector"}) r.push_back({.o = o, .t = t, .s = 3});
    }
    return r;
  }
  static bool Two(const std::string& o) { return o == "copy" || o == "copyctor" || o == "move" || o == "movector" || o == "swap" || o.substr(0, 7) == "convert"; }
  void One(size_t maxlen) {
    for (int t : {1, 3}) for (int n = 0; n <= (int)std::min(maxlen, CapOf(t)); ++n) {
      std::vector<int> keys;
      for (int k = 1; k <= 2 * n + 1; ++k) keys.push_back(k);
      int i = 0;
      for (auto& e : OpsFor(t, n, keys)) {
        if (Two(e.o) && e.s != t) {
          for (int m = 0; m <= (int)std::min(CapOf(e.s), maxlen); ++m) {
            Start(); Set(t, n, i % 3); Set(e.s, m, ++i % 3, 3);
            Do(e);
            Do({.o = "emplace", .t = t, .k = 1, .x = 8});  // (also shows whether the comparator is still the right one)
            if (e.s != 3) Do({.o = "emplace", .t = e.s, .k = 1, .x = 9});
          }
        } else {
          Start(); Set(t, n, ++i % 3);
          Do(e);
        }
      }
    }
    Stop();
  }
  void Queries(size_t maxlen) {
    Start();
    for (int t : {1, 3}) {
      size_t cap = std::min(maxlen, CapOf(t));
      for (int n = 0; n <= (int)cap; ++n) {
        Do({.o = "clear", .t = t});
        Set(t, n, n % 3);
        for (int k = 1; k <= 2 * n + 1; ++k) Query(t, k);
        for (auto ks : std::vector<std::vector<int>>{{}, {2}, {1}, {2, 4}, {2, 3}, {1, 3}, {3, 2 * n}, {2 * n, 2}, {1, 3, 2 * n}, {2, 4, 6}, {5, 1, 2 * n + 1}}) Sub(t, ks);
      }
      for (int a : {1, 2, 3}) for (int b : {1, 2, 3}) KeyComp(t, a, b);
    }
    Stop();
  }
  void Compare() {
    std::vector<std::vector<int>> all = {{}};
    for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 2) for (int k : {1, 2, 3}) for (int x : {1, 2}) { if (!kMap && x == 2) continue; bool dup = false; for (int p : all[i]) dup |= p / 10 == k; if (dup) continue; auto y = all[i]; y.push_back(k * 10 + x); all.push_back(y); }
    for (auto& a : all) for (auto& b : all) {
      Start();
      auto set = [&](int t, auto& xs) { if (xs.size() <= CapOf(t)) for (int p : xs) Do({.o = "emplace", .t = t, .k = p / 10, .x = p % 10}); };
      set(1, a); set(2, b); set(3, b);
      for (int t = 1; t <= 3; ++t) for (int s = 1; s <= 3; ++s) Cmp(t, s);
    }
    Stop();
  }
  void Hist(Rng& r, int len, int universe) {
    Start();
    for (int i = 0; i < len; ++i) {
      int t = 1 + (int)r.below(3);
      auto ops = OpsFor(t, (int)Size(t), {1 + (int)r.below(universe), 1 + (int)r.below(universe)});
      Args e;
      do { e = ops[r.below(ops.size())]; } while (e.o == "clear" && r.chance(70));
      if (r.chance(40)) e = {.o = "emplace", .t = t, .k = 1 + (int)r.below(universe)};
      e.x = 1 + (int)r.below(90);
      for (int& x : e.xs) x = 1 + (int)r.below(90);
      Do(e);
      if (r.chance(25)) Query(1 + r.below(3), 1 + r.below(universe + 1));
      if (r.chance(10)) Cmp(1 + r.below(3), 1 + r.below(3));
    }
    Stop();
  }
  void Over() {
    Start();
    for (int t : {1, 3}) for (int n = 0; n <= (int)CapOf(t); ++n) {
      int cap = CapOf(t);
      std::vector<Args> ops;
      for (int k : {1, 2, 2 * n, 2 * n + 1}) for (auto& e : OpsFor(t, n, {k}, false)) if (e.k && e.o != "erasekey" && e.o != "eraseforeign") ops.push_back(e);
      for (int a : {0, n - 1, n, n + 1}) if (a >= 0) for (auto o : {"atindex", "atindexc"}) ops.push_back({.o = o, .t = t, .a = a});
      for (int m : {cap - 1, cap, cap + 1, cap + 2}) if (m >= 0) {
        std::vector<int> ks, xs;
        for (int i = 0; i < m; ++i) { ks.push_back(SignOf(t) * (i + 1) + 50); xs.push_back(kMap ? i : 0); }
        ops.push_back({.o = "insertrange", .t = t, .ks = ks, .xs = xs});
        ops.push_back({.o = "make", .t = t, .ks = ks, .xs = xs});
        if (m <= 3) for (auto o : {"makelist", "assignlist"}) ops.push_back({.o = o, .t = t, .ks = ks, .xs = xs});
        if (!kSortedOnly && m > 1) { ks[m - 1] = ks[0]; ops.push_back({.o = "make", .t = t, .ks = ks, .xs = xs}); }
      }
      for (auto e : ops) {
        if (!kMap) e.x = 0;
        std::vector<int> f, fx;
        for (int i = 0; i < n; ++i) { f.push_back(SignOf(t) > 0 ? 2 * (i + 1) : 2 * (n - i)); fx.push_back(kMap ? 3 * (f.back() / 2) : 0); }
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
          (void)!freopen("/dev/null", "w", stderr);
          (void)!freopen("/dev/null", "w", stdout);
          for (int i = 0; i < n; ++i) Run({.o = "emplace", .t = t, .k = f[i], .x = fx[i]});
          try { Run(e); } catch (const std::runtime_error&) { _exit(1); }
          _exit(Size(t) > (size_t)cap ? 5 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        bool died = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 5));
        Rec r("over");
        Put(r, e).nums("f", f).nums("fx", fx).boolean("died", died).emit();
      }
    }
    Stop();
  }
};
template<size_t S, LimitedOptionsFlag... F> constexpr auto Opt = LimitedOptions<S, F...>{};
constexpr auto kNoOpt = LimitedOptionsFlag::kNoOptimizeIndexOf;
constexpr auto kCustom = LimitedOptionsFlag::kCustomIndexOfBeyondUnroll;
constexpr auto kSortedIn = LimitedOptionsFlag::kRequireSortedInput;
constexpr auto kEmptyD = LimitedOptionsFlag::kEmptyDestructor;
using Str = std::string;
template<typename T> using Less = std::less<T>;

template<typename W> void RunWorld(const std::string& mode, Rng& r, bool thorough, size_t maxlen, int universe, int sgn = 1, int sgn3 = 1, bool cmp = false) {
  static W w;
  w.sgn = sgn; w.sgn3 = sgn3;
  if (mode == "one") { w.One(maxlen); if (cmp) w.Compare(); }
  else if (mode == "query") w.Queries(100);
  else if (mode == "hist") for (int i = 0; i < (thorough ? 400 : 40); ++i) w.Hist(r, 30, universe);
  else if (mode == "over") w.Over();
  else if (mode == "life") { w.One(maxlen); w.Queries(4); for (int i = 0; i < (thorough ? 1000 : 100); ++i) w.Hist(r, 40, universe); }
}
#define SET(K, O, C, K3, O3, C3) World<K, void, O, C, K3, O3, C3>
#define MAP(K, M, O, C, K3, O3, C3) World<K, M, O, C, K3, O3, C3>
#if VF_CFG == 9
template<typename C> static void SameK(const C& got, std::vector<int> want) {
  std::vector<int> g;
  for (const auto& x : got) { g.push_back(KeyOf(x)); if (kHasFirst<std::remove_cvref_t<decltype(x)>>) g.push_back(MapOf(x)); }
  Rec("same").nums("got", g).nums("want", want).emit();
}
static void Misc() {
  using namespace mbo::container;
  Rec("reset").num("id", 1).nums("caps", std::vector<int>{1}).nums("sg", std::vector<int>{1}).emit();
  SameK(MakeLimitedSet(3, 1, 2, 1), {1, 2, 3});
  SameK(MakeLimitedSet<4>({3, 1, 2}), {1, 2, 3});
  SameK(MakeLimitedSetOf<long>(3, 1, 2), {1, 2, 3});
  SameK(MakeLimitedSet<int, 4>(), {});
  std::vector<int> src = {5, 4, 3, 4};
  SameK(MakeLimitedSet<5>(src.begin(), src.end()), {3, 4, 5});
  SameK(MakeLimitedSet<5>(src.begin(), src.end(), std::less<int>()), {3, 4, 5});
  int arr[] = {3, 1, 2, 3};
  SameK(ToLimitedSet(arr), {1, 2, 3});
  { auto s = MakeLimitedSet("b", "a", "b"); std::string g; for (auto x : s) g += x; SameK(std::vector<int>{(int)s.size(), g == "ab"}, {2, 1}); }
  { auto s = MakeLimitedSet<std::string>("b", "a", "b"); std::string g; for (auto x : s) g += x; SameK(std::vector<int>{(int)s.size(), g == "ab"}, {2, 1}); }
  using P = std::pair<int, int>;
  SameK(MakeLimitedMap(P{3, 4}, P{1, 2}, P{3, 9}), {1, 2, 3, 4});
  SameK(MakeLimitedMap<4>({P{3, 4}, P{1, 2}}), {1, 2, 3, 4});
  std::vector<P> ps = {{7, 1}, {5, 2}, {7, 3}};
  SameK(MakeLimitedMap<5>(ps.begin(), ps.end()), {5, 2, 7, 1});
  P parr[] = {{7, 1}, {5, 2}, {7, 3}};
  SameK(ToLimitedMap(parr), {5, 2, 7, 1});
  SameK(ToLimitedMap(std::move(parr)), {5, 2, 7, 1});
  SameK(MakeLimitedMap<int, int, 4>(), {});
#ifndef VF_NO_CT
  struct R { int a[12]; };
  constexpr auto script = []() {
    R r{};
    LimitedMap<int, int, 5> m({{4, 40}, {2, 20}});
    m.emplace(3, 30); m[1] = 10; m.erase(2); m.insert_or_assign(3, 33); m.try_emplace(4, 44);
    LimitedMap<int, int, 5> n(m);
    n.erase(1);
    LimitedSet<int, 5> s({5, 3, 4, 3});
    s.insert(1); s.erase(4);
    r.a[0] = (int)m.size(); r.a[1] = m.at(1); r.a[2] = m.at(3); r.a[3] = m.at(4); r.a[4] = (int)n.size(); r.a[5] = (int)n.index_of(4);
    r.a[6] = (int)s.size(); r.a[7] = s.contains(4) + 2 * s.contains(5); r.a[8] = (int)s.index_of(5); r.a[9] = (int)(s.lower_bound(2) - s.begin());
    r.a[10] = (m < n) + 2 * (n < m) + 4 * (m == m); r.a[11] = (int)(m.upper_bound(3) - m.begin());
    return r;
  };
  constexpr R ct = script();
  R rt = script();
  for (const R& x : {ct, rt}) SameK(std::vector<int>(x.a, x.a + 12), {3, 10, 33, 40, 2, 1, 3, 2, 2, 1, 5, 2});
#endif
}
#endif
int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  bool th = std::string(argv[3]) == "thorough";
  Rng r(seed + 177 + VF_CFG);
  static char big[1 << 20];
  setvbuf(stdout, big, _IOFBF, sizeof big);
#if VF_CFG == 0
  RunWorld<SET(int, 3, Less<int>, short, 2, Less<short>)>(mode, r, th, 3, 7);
  RunWorld<SET(Str, 4, Less<Str>, Str, 3, std::greater<Str>)>(mode, r, th, th ? 4 : 3, 9, 1, -1, true);
#elif VF_CFG == 1
  RunWorld<SET(int, (Opt<5, kNoOpt>), std::less<>, int, 4, CompareLess<int>)>(mode, r, th, 3, 9);
  RunWorld<SET(int, 8, std::greater<int>, int, (Opt<5, kNoOpt>), std::greater<int>)>(mode, r, th, 3, 12, -1, -1, true);
#elif VF_CFG == 2
  RunWorld<SET(Str, 17, std::less<>, Str, (Opt<17, kCustom>), CompareLess<Str>)>(mode, r, th, 2, 30);
#elif VF_CFG == 3
  RunWorld<SET(int, (Opt<20, kCustom>), Less<int>, int, (Opt<19, kCustom>), CompareLess<int>)>(mode, r, th, 2, 40);
  RunWorld<SET(int, 6, Dir, int, 5, Dir)>(mode, r, th, 3, 9, -1, 1);
#elif VF_CFG == 4
  RunWorld<SET(int, 16, CompareLess<int>, int, 15, std::less<>)>(mode, r, th, 2, 30);
  RunWorld<SET(int, (Opt<3, kSortedIn>), Less<int>, int, (Opt<4, kSortedIn>), std::greater<int>)>(mode, r, th, 3, 7, 1, -1);
  RunWorld<SET(int, (Opt<3, kEmptyD>), CompareLess<int>, int, 0, Less<int>)>(mode, r, th, 2, 7);
#elif VF_CFG == 5
  RunWorld<SET(int, 32, CompareLess<int>, int, 33, Less<int>)>(mode, r, th, 1, 60);
  RunWorld<SET(int, 32, std::less<>, int, 31, std::greater<int>)>(mode, r, th, 1, 60, 1, -1);
#elif VF_CFG == 6
  RunWorld<SET(int, 5, CompareLess<int>, int, 4, std::less<>)>(mode, r, th, 2, 12);
  RunWorld<SET(int, (Opt<7, kCustom>), Less<int>, int, (Opt<6, kCustom>), CompareLess<int>)>(mode, r, th, 2, 15);
#elif VF_CFG == 8
  RunWorld<SET(Obj<0>, 4, Less<Obj<0>>, Obj<0>, 3, CompareLess<Obj<0>>)>(mode, r, th, th ? 4 : 3, 9);
  RunWorld<MAP(Obj<0>, Obj<0>, 3, Less<Obj<0>>, Obj<0>, 2, std::greater<Obj<0>>)>(mode, r, th, th ? 3 : 2, 9, 1, -1);
#elif VF_CFG == 9
  Misc();
#elif VF_CFG == 10
  RunWorld<MAP(int, int, 3, Less<int>, short, 2, Less<short>)>(mode, r, th, 3, 7);
#elif VF_CFG == 11
  RunWorld<MAP(Str, Str, 4, Less<Str>, Str, 3, std::greater<Str>)>(mode, r, th, th ? 4 : 3, 9, 1, -1, true);
#elif VF_CFG == 12
  RunWorld<MAP(int, Str, (Opt<5, kNoOpt>), std::less<>, int, 4, CompareLess<int>)>(mode, r, th, 3, 9);
#elif VF_CFG == 13
  RunWorld<MAP(Str, int, 17, std::less<>, Str, (Opt<17, kCustom>), CompareLess<Str>)>(mode, r, th, 1, 30);
#elif VF_CFG == 14
  RunWorld<MAP(int, int, (Opt<20, kCustom>), Less<int>, int, (Opt<19, kCustom>), CompareLess<int>)>(mode, r, th, 1, 40);
  RunWorld<MAP(int, int, 6, Dir, int, 5, Dir)>(mode, r, th, 2, 9, -1, 1);
#elif VF_CFG == 15
  RunWorld<MAP(int, Str, 16, CompareLess<int>, int, 15, std::less<>)>(mode, r, th, 1, 30);
  RunWorld<MAP(int, int, (Opt<3, kSortedIn>), Less<int>, int, (Opt<4, kSortedIn>), std::greater<int>)>(mode, r, th, 2, 7, 1, -1);
  RunWorld<MAP(int, int, (Opt<3, kEmptyD>), CompareLess<int>, int, 0, Less<int>)>(mode, r, th, 2, 7);
#elif VF_CFG == 16
  RunWorld<MAP(int, int, 32, CompareLess<int>, int, 31, std::greater<int>)>(mode, r, th, 1, 60, 1, -1);
#elif VF_CFG == 17
  RunWorld<MAP(int, int, 5, CompareLess<int>, int, 4, std::less<>)>(mode, r, th, 2, 12);
  RunWorld<MAP(int, int, (Opt<7, kCustom>), std::greater<int>, int, (Opt<6, kCustom>), CompareLess<int>)>(mode, r, th, 2, 15, -1, 1);
#endif
  return 0;
}
