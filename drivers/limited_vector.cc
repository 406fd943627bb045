// Bounded vectors: exhaustive single operations from every small state, random histories,
// operations beyond the capacity in processes of their own, and element lives.
// argv: mode(one|hist|over|life|misc) seed tier
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <list>
#include <forward_list>
#include <stdexcept>
#include "life.h"
#include "mbo/container/limited_vector.h"
using namespace vf;
using mbo::container::LimitedVector;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;

#ifndef VF_THROWS
# define VF_THROWS 1
#endif

static int ValueOf(int v) { return v; }
static int ValueOf(short v) { return v; }
static int ValueOf(long v) { return (int)v; }
template<int T> static int ValueOf(const Obj<T>& o) { return o.v; }
static int ValueOf(const std::string& s) {
  if (s.empty()) return 0;
  if (s.size() < 40 || s.substr(0, 40) != std::string(40, '#')) return -100;
  return atoi(s.c_str() + 40);
}
template<typename T> T Make(int x) {
  if constexpr (std::is_same_v<T, std::string>) return x == 0 ? std::string() : std::string(40, '#') + std::to_string(x);
  else return T(x);
}
struct Args { std::string o; int t = 1, s = 1, a = 0, b = 0, n = 0, x = 0; std::vector<int> xs; };
static Rec& Put(Rec& r, const Args& e) {
  return r.str("o", e.o).num("t", e.t).num("s", e.s).num("a", e.a).num("b", e.b).num("n", e.n).num("x", e.x).nums("xs", e.xs);
}
template<typename T> std::vector<T> MakeAll(const std::vector<int>& xs) { std::vector<T> r; r.reserve(xs.size()); for (int x : xs) r.push_back(Make<T>(x)); return r; }

// Slots 1 and 2 share one type, slot 3 has another capacity and maybe element type.
template<typename T, auto CO, typename U, auto DO>
struct World {
  using V = LimitedVector<T, CO>;
  using W = LimitedVector<U, DO>;
  static constexpr bool kLife = std::is_same_v<T, Obj<0>>;
  alignas(V) char m1[sizeof(V)]; alignas(V) char m2[sizeof(V)]; alignas(W) char m3[sizeof(W)];
  V& v1() { return *reinterpret_cast<V*>(m1); }
  V& v2() { return *reinterpret_cast<V*>(m2); }
  W& v3() { return *reinterpret_cast<W*>(m3); }
  static constexpr size_t C = mbo::container::MakeLimitedOptions<CO>().kCapacity;
  static constexpr size_t D = mbo::container::MakeLimitedOptions<DO>().kCapacity;
  long id = 0;
  bool live = false;
  void Start() {
    if (live) Stop();
    std::memset(m1, 0xA5, sizeof m1); std::memset(m2, 0xA5, sizeof m2); std::memset(m3, 0xA5, sizeof m3);
    new (m1) V; new (m2) V; new (m3) W; live = true;
    Rec("reset").num("id", ++id).nums("caps", std::vector<size_t>{C, C, D}).emit();
    if constexpr (kLife) {
      LifeLog::stores() = {{(const char*)std::as_const(v1()).data(), C + 1}, {(const char*)std::as_const(v2()).data(), C + 1}, {(const char*)std::as_const(v3()).data(), D + 1}};
      LifeLog::evs().clear(); LifeLog::on() = true;
    }
  }
  void Stop() {
    if (!live) return;
    v1().~V(); v2().~V(); v3().~W(); live = false;
    if constexpr (kLife) { EmitLife({0, 0, 0}); LifeLog::on() = false; Rec("end").emit(); }
  }
  template<typename X> static std::string Show(X& x) {
    const X& c = x;
    std::vector<int> it, ci, ix, da, ri, cri, sz, fb;
    const size_t lim = 3 * C + 40;  // guards against runaway iteration
    for (auto& e : x) { if (it.size() > lim) break; it.push_back(ValueOf(e)); }
    for (auto i = c.cbegin(); i != c.cend(); ++i) { if (ci.size() > lim) break; ci.push_back(ValueOf(*i)); }
    for (size_t i = 0; i < c.size() && i <= lim; ++i) { ix.push_back(ValueOf(c[i])); da.push_back(ValueOf(*(c.data() + i))); if (ValueOf(x.at(i)) != ix.back()) ix.back() = -77; }
    for (auto i = x.rbegin(); i != x.rend(); ++i) { if (ri.size() > lim) break; ri.push_back(ValueOf(*i)); }
    for (auto i = c.crbegin(); i != c.crend(); ++i) { if (cri.size() > lim) break; cri.push_back(ValueOf(*i)); }
    sz = {(int)c.size(), c.empty(), (int)c.capacity(), (int)c.max_size()};
    if (c.size() > 0) fb = {ValueOf(x.front()), ValueOf(x.back()), ValueOf(c.front()), ValueOf(c.back())};
    std::string r = Rec("s").nums("it", it).nums("ci", ci).nums("ix", ix).nums("da", da).nums("ri", ri).nums("cri", cri).nums("sz", sz).nums("fb", fb).take();
    return r;
  }
  std::vector<int> Content(int t) {
    std::vector<int> r;
    if (t == 3) for (auto& e : v3()) r.push_back(ValueOf(e));
    else for (auto& e : t == 1 ? v1() : v2()) r.push_back(ValueOf(e));
    return r;
  }
  size_t Size(int t) { return t == 1 ? v1().size() : t == 2 ? v2().size() : v3().size(); }
  size_t CapOf(int t) { return t == 3 ? D : C; }
  // Is the operation carried out only if it fits (otherwise it is in a `noexcept` function)?
  template<typename X> int Basic(X& x, const Args& e) {
    using E = typename X::value_type;
    auto ix = [&](auto it) { return (int)(it - x.begin()); };
    auto cpos = [&](int p) { return x.cbegin() + p; };
    if (e.o == "push") { const E val = Make<E>(e.x); return (int)(&x.push_back(val) - &*x.begin()); }
    if (e.o == "pushmove") { return (int)(&x.push_back(Make<E>(e.x)) - &*x.begin()); }
    if (e.o == "pushself") { return (int)(&x.push_back(x[e.a]) - &*x.begin()); }
    if (e.o == "emplaceback") {
      if constexpr (std::is_same_v<E, std::string>) { auto val = Make<E>(e.x); return (int)(&x.emplace_back(val.data(), val.size()) - &*x.begin()); }
      else return (int)(&x.emplace_back(e.x) - &*x.begin());
    }
    if (e.o == "pop") { x.pop_back(); return -1; }
    if (e.o == "clear") { x.clear(); return -1; }
    if (e.o == "resize") { x.resize(e.n); return -1; }
    if (e.o == "reserve") { x.reserve(e.n); x.shrink_to_fit(); return -1; }
    if (e.o == "insert") { const E val = Make<E>(e.x); return ix(x.insert(cpos(e.a), val)); }
    if (e.o == "insertmove") { return ix(x.insert(cpos(e.a), Make<E>(e.x))); }
    if (e.o == "emplace") {
      if constexpr (std::is_same_v<E, std::string>) { auto val = Make<E>(e.x); return ix(x.emplace(cpos(e.a), val.data(), val.size())); }
      else return ix(x.emplace(cpos(e.a), e.x));
    }
    if (e.o == "insertself") { return ix(x.insert(cpos(e.a), x[e.b])); }
    if (e.o == "emplaceself") { return ix(x.emplace(cpos(e.a), x[e.b])); }
    if (e.o == "insertn") { const E val = Make<E>(e.x); return ix(x.insert(cpos(e.a), (size_t)e.n, val)); }
    if (e.o == "insertnself") { return ix(x.insert(cpos(e.a), (size_t)e.n, x[e.b])); }
    if (e.o == "insertrange") { auto all = MakeAll<E>(e.xs); return ix(x.insert(cpos(e.a), all.begin(), all.end())); }
    if (e.o == "insertlist") {
      if (e.xs.size() == 0) return ix(x.insert(cpos(e.a), std::initializer_list<E>{}));
      if (e.xs.size() == 1) return ix(x.insert(cpos(e.a), {Make<E>(e.xs[0])}));
      if (e.xs.size() == 2) return ix(x.insert(cpos(e.a), {Make<E>(e.xs[0]), Make<E>(e.xs[1])}));
      return ix(x.insert(cpos(e.a), {Make<E>(e.xs[0]), Make<E>(e.xs[1]), Make<E>(e.xs[2])}));
    }
    if (e.o == "erase") { return ix(x.erase(cpos(e.a))); }
    if (e.o == "eraserange") { return ix(x.erase(cpos(e.a), cpos(e.b))); }
    if (e.o == "assignn") { const E val = Make<E>(e.x); x.assign((size_t)e.n, val); return -1; }
    if (e.o == "assignrange") { auto all = MakeAll<E>(e.xs); x.assign(all.begin(), all.end()); return -1; }
    if (e.o == "assignlist") {
      if (e.xs.size() == 0) x.assign(std::initializer_list<E>{});
      else if (e.xs.size() == 1) x.assign({Make<E>(e.xs[0])});
      else if (e.xs.size() == 2) x.assign({Make<E>(e.xs[0]), Make<E>(e.xs[1])});
      else x.assign({Make<E>(e.xs[0]), Make<E>(e.xs[1]), Make<E>(e.xs[2])});
      return -1;
    }
    if (e.o == "make") { auto all = MakeAll<E>(e.xs); x.~X(); new (&x) X(all.begin(), all.end()); return -1; }
    if (e.o == "makelist") {
      x.~X();
      if (e.xs.size() == 0) new (&x) X(std::initializer_list<E>{});
      else if (e.xs.size() == 1) new (&x) X(std::initializer_list<E>{Make<E>(e.xs[0])});
      else if (e.xs.size() == 2) new (&x) X(std::initializer_list<E>{Make<E>(e.xs[0]), Make<E>(e.xs[1])});
      else new (&x) X(std::initializer_list<E>{Make<E>(e.xs[0]), Make<E>(e.xs[1]), Make<E>(e.xs[2])});
      return -1;
    }
    if (e.o == "write") { if (e.x % 2) x[e.a] = Make<E>(e.x); else *(x.begin() + e.a) = Make<E>(e.x); return -1; }
    if (e.o == "at") return ValueOf(x.at(e.a));
    if (e.o == "index") return ValueOf(x[e.a]);
    if (e.o == "cat") return ValueOf(std::as_const(x).at(e.a));
    if (e.o == "cindex") return ValueOf(std::as_const(x)[e.a]);
    fprintf(stderr, "unknown op %s\n", e.o.c_str()); _exit(97);
  }
  int Run(const Args& e) {
    if (e.o == "copy" || e.o == "copyctor" || e.o == "move" || e.o == "movector" || (e.o == "swap" && e.s != 3)) {
      if (e.t == 3 || e.s == 3) { fprintf(stderr, "bad slots\n"); _exit(97); }
      V& a = e.t == 1 ? v1() : v2();
      V& b = e.s == 1 ? v1() : v2();
      if (e.o == "copy") { V* r = &(a = b); if (r != &a) return -2; }
      else if (e.o == "move") { V* r = &(a = std::move(b)); if (r != &a) return -2; }
      else if (e.o == "swap") a.swap(b);
      else if (e.o == "copyctor") { V tmp(b); a.~V(); new (&a) V(tmp); }
      else { a.~V(); new (&a) V(std::move(b)); }
      return -1;
    }
    if (e.o == "convert" || e.o == "convertctor" || e.o == "convertmove" || e.o == "convertmovector" || e.o == "swap") {
      V& a = e.t == 1 ? v1() : v2();
      if constexpr (D <= C) {
        if (e.o == "convert") a = v3();
        else if (e.o == "convertctor") { a.~V(); new (&a) V(v3()); }
        else if (e.o == "convertmove") { if constexpr (std::is_same_v<T, U>) a = std::move(v3()); }
        else if (e.o == "convertmovector") { if constexpr (std::is_same_v<T, U>) { a.~V(); new (&a) V(std::move(v3())); } }
        else if constexpr (std::is_same_v<T, U>) a.swap(v3());
      }
      return -1;
    }
    return e.t == 3 ? Basic(v3(), e) : Basic(e.t == 1 ? v1() : v2(), e);
  }
  void Sizes() { EmitLife({(int)v1().size(), (int)v2().size(), (int)v3().size()}); }
  void Do(const Args& e) {
    bool ok = true;
    int ret = -1;
    try { ret = Run(e); } catch (const std::runtime_error&) { ok = false; }
    if constexpr (kLife) {
      Sizes();
    } else {
      Rec r("do");
      Put(r, e).boolean("ok", ok).num("ret", ret);
      r.raw("post", "[" + Show(v1()) + "," + Show(v2()) + "," + Show(v3()) + "]").emit();
    }
  }
  template<typename X, typename Y> static void CmpOf(int t, int s, const X& x, const Y& y) {
    auto o = x <=> y;
    Rec("cmp").num("t", t).num("s", s).nums("b", std::vector<int>{x == y, x != y, x < y, x <= y, x > y, x >= y}).num("c", o < 0 ? -1 : o > 0 ? 1 : 0).emit();
  }
  void Cmp(int t, int s) {
    auto with = [&](auto& x) { if (s == 1) Cmp2(t, s, x, v1()); else if (s == 2) Cmp2(t, s, x, v2()); else Cmp2(t, s, x, v3()); };
    if (t == 1) with(v1()); else if (t == 2) with(v2()); else with(v3());
    if constexpr (kLife) Sizes();
  }
  template<typename X, typename Y> void Cmp2(int t, int s, const X& x, const Y& y) {
    std::string b = "[";
    auto o = x <=> y;
    bool bs[] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
    if constexpr (!kLife) {
      std::string js;
      for (bool q : bs) js += (js.empty() ? "[" : ",") + std::string(q ? "true" : "false");
      Rec("cmp").num("t", t).num("s", s).raw("b", js + "]").num("c", o < 0 ? -1 : o > 0 ? 1 : 0).emit();
    }
  }
  void Set(int t, const std::vector<int>& xs) { for (int x : xs) Do({.o = "emplaceback", .t = t, .x = x}); }

  // Every operation with all its arguments for content xs of slot t; others: possible second slots.
  std::vector<Args> AllOps(int t, size_t n, bool with_over, int nx) {
    std::vector<Args> r;
    int cap = CapOf(t);
    auto fits = [&](int k) { return with_over || k <= cap; };
    std::vector<int> xv = nx == 1 ? std::vector<int>{7} : std::vector<int>{7, 8};
    std::vector<std::vector<int>> lists = {{}, {7}, {7, 8}, {7, 8, 9}};
    for (int x : xv) for (auto o : {"push", "pushmove", "emplaceback"}) r.push_back({.o = o, .t = t, .x = x});
    for (auto o : {"pop", "clear"}) r.push_back({.o = o, .t = t});
    for (int k = 0; k <= cap + 2; ++k) { if (k <= cap) r.push_back({.o = "resize", .t = t, .n = k}); r.push_back({.o = "reserve", .t = t, .n = k}); if (k <= cap) r.push_back({.o = "assignn", .t = t, .n = k, .x = 7}); }
    for (int p = 0; p <= (int)n; ++p) {
      for (auto o : {"insert", "insertmove", "emplace"}) r.push_back({.o = o, .t = t, .a = p, .x = 7});
      for (int b = 0; b < (int)n; ++b) { r.push_back({.o = "insertself", .t = t, .a = p, .b = b}); r.push_back({.o = "emplaceself", .t = t, .a = p, .b = b}); r.push_back({.o = "insertnself", .t = t, .a = p, .b = b, .n = 2}); }
      for (int k = 0; k <= cap - (int)n + 1; ++k) r.push_back({.o = "insertn", .t = t, .a = p, .n = k, .x = 8});
      for (auto& xs : lists) { r.push_back({.o = "insertrange", .t = t, .a = p, .xs = xs}); r.push_back({.o = "insertlist", .t = t, .a = p, .xs = xs}); }
      for (int q = p; q <= (int)n; ++q) r.push_back({.o = "eraserange", .t = t, .a = p, .b = q});
      if (p < (int)n) { r.push_back({.o = "erase", .t = t, .a = p}); r.push_back({.o = "write", .t = t, .a = p, .x = 7}); r.push_back({.o = "write", .t = t, .a = p, .x = 8}); r.push_back({.o = "pushself", .t = t, .a = p}); }
    }
    for (int p = 0; p <= (int)n + 1; ++p) for (auto o : {"at", "index", "cat", "cindex"}) r.push_back({.o = o, .t = t, .a = p});
    for (auto& xs : lists) {
      r.push_back({.o = "assignlist", .t = t, .xs = xs});
      if ((int)xs.size() <= cap) for (auto o : {"assignrange", "make", "makelist"}) r.push_back({.o = o, .t = t, .xs = xs});
    }
    if (t != 3) for (int s = 1; s <= 2; ++s) for (auto o : {"copy", "copyctor", "move", "movector", "swap"}) {
      if (s == t && std::string(o) != "copy") continue;
      r.push_back({.o = o, .t = t, .s = s});
    }
    if (t != 3 && D <= C) {
      for (auto o : {"convert", "convertctor"}) r.push_back({.o = o, .t = t, .s = 3});
      if (std::is_same_v<T, U>) {
        for (auto o : {"convertmove", "convertmovector"}) r.push_back({.o = o, .t = t, .s = 3});
        if (n <= D) r.push_back({.o = "swap", .t = t, .s = 3});
      }
    }
    return r;
  }
  // one operation from every state over {1,2}
  void One(size_t maxlen, bool all_values) {
    for (int t : {1, 3}) {
      size_t cap = std::min(maxlen, CapOf(t));
      for (size_t n = 0; n <= cap; ++n) {
        for (unsigned bits = 0; bits < (all_values ? 1u << n : 1u); ++bits) {
          std::vector<int> xs;
          for (size_t i = 0; i < n; ++i) xs.push_back(all_values ? 1 + ((bits >> i) & 1) : (int)i + 1);
          size_t i = 0;
          for (auto& e : AllOps(t, n, false, 1)) {
            Start();
            Set(t, xs);
            bool two = e.o == "copy" || e.o == "copyctor" || e.o == "move" || e.o == "movector" || e.o == "swap" || e.o.substr(0, 7) == "convert";
            if (two && e.s != t) {
              // every size of the other one
              for (size_t m = 0; m <= CapOf(e.s); ++m) {
                if (m) { Start(); Set(t, xs); }
                std::vector<int> ys;
                for (size_t k = 0; k < m; ++k) ys.push_back(3 + (int)k);
                Set(e.s, ys);
                if (e.o == "swap" && (m > CapOf(t) || n > CapOf(e.s))) continue;
                Do(e);
                Do({.o = "clear", .t = t});
              }
            } else {
              if (e.s == 2 && i++ % 3 == 0) Set(2, {5});
              Do(e);
              if (i++ % 4 == 0) { Do({.o = "pushmove", .t = t, .x = 6}); }
            }
          }
        }
      }
    }
    Stop();
  }
  void Compare() {
    std::vector<std::vector<int>> all = {{}};
    for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 3) for (int x : {1, 2}) { auto y = all[i]; y.push_back(x); all.push_back(y); }
    for (auto& a : all) for (auto& b : all) {
      Start();
      if (a.size() <= C) Set(1, a);
      if (b.size() <= C) Set(2, b);
      if (b.size() <= D) Set(3, b);
      for (int t = 1; t <= 3; ++t) for (int s = 1; s <= 3; ++s) Cmp(t, s);
    }
    Stop();
  }
  void Hist(Rng& r, int len) {
    Start();
    for (int i = 0; i < len; ++i) {
      int t = 1 + (int)r.below(3);
      auto ops = AllOps(t, Size(t), false, 2);
      Args e;
      do { e = ops[r.below(ops.size())]; } while (e.o == "clear" && r.chance(70));
      if (e.o == "swap" && (Size(e.s) > CapOf(t) || Size(t) > CapOf(e.s))) continue;
      if (r.chance(30)) e = {.o = "push", .t = t};  // keep them filled
      e.x = 1 + (int)r.below(9);
      for (int& x : e.xs) x = 1 + (int)r.below(9);
      Do(e);
      if (r.chance(15)) Cmp(1 + r.below(3), 1 + r.below(3));
    }
    Stop();
  }
  // every operation from every size, in a process of its own: it must not continue beyond the capacity
  void Over() {
    Rec("reset").num("id", ++id).nums("caps", std::vector<size_t>{C, C, D}).emit();
    for (int t : {1, 3}) for (size_t n = 0; n <= CapOf(t); ++n) {
      std::vector<Args> ops;
      int cap = CapOf(t);
      for (auto o : {"push", "pushmove", "emplaceback", "pop"}) ops.push_back({.o = o, .t = t, .x = 7});
      for (int k : {cap - 1, cap, cap + 1, cap + 3}) if (k >= 0) for (auto o : {"resize", "reserve", "assignn"}) ops.push_back({.o = o, .t = t, .n = k, .x = 7});
      for (int p : {0, (int)n}) for (auto o : {"insert", "insertmove", "emplace"}) ops.push_back({.o = o, .t = t, .a = p, .x = 7});
      for (int k : {cap - (int)n, cap - (int)n + 1, cap - (int)n + 2}) ops.push_back({.o = "insertn", .t = t, .a = (int)n / 2, .n = k, .x = 7});
      for (auto& xs : std::vector<std::vector<int>>{{}, {7}, {7, 8}, {7, 8, 9}}) for (auto o : {"insertrange", "insertlist", "assignrange", "assignlist", "make", "makelist"}) ops.push_back({.o = o, .t = t, .a = 0, .xs = xs});
      std::vector<int> big(cap + 1, 3);
      for (auto o : {"insertrange", "assignrange", "make"}) ops.push_back({.o = o, .t = t, .a = 0, .xs = big});
      for (int a : {0, (int)n - 1, (int)n, (int)n + 1}) if (a >= 0) for (auto o : {"at", "index", "cat", "cindex"}) ops.push_back({.o = o, .t = t, .a = a});
      for (auto& e : ops) {
        std::vector<int> from;
        for (size_t i = 0; i < n; ++i) from.push_back(1 + (int)i);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
          (void)!freopen("/dev/null", "w", stderr);
          (void)!freopen("/dev/null", "w", stdout);
          alarm(20);
          Start();
          for (int x : from) Basic2(t, {.o = "emplaceback", .t = t, .x = x});
          try { Run(e); } catch (const std::runtime_error&) { _exit(3); }
          _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        bool died = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL) : WEXITSTATUS(st) == 3;
        if (WIFSIGNALED(st) && !died) { Rec("crash").num("rc", -WTERMSIG(st)).str("args", e.o).emit(); continue; }
        Rec r("over");
        Put(r, e).nums("from", from).boolean("died", died).emit();
      }
    }
  }
  void Basic2(int t, const Args& e) { if (t == 3) Basic(v3(), e); else Basic(t == 1 ? v1() : v2(), e); }
};

template<typename C> static void Same(const C& got, std::vector<int> want) {
  std::vector<int> g;
  for (const auto& x : got) g.push_back(ValueOf(x));
  Rec("same").nums("got", g).nums("want", want).emit();
}
static void Misc() {
  using namespace mbo::container;
  Rec("reset").num("id", 1).nums("caps", std::vector<int>{1}).emit();
  Same(MakeLimitedVector(1, 2, 3), {1, 2, 3});
  Same(MakeLimitedVector(4), {4});
  Same(MakeLimitedVector<5>({1, 2, 3}), {1, 2, 3});
  Same(MakeLimitedVector<5>(9), {9, 9, 9, 9, 9});
  Same(MakeLimitedVector<int, 4>(), {});
  std::vector<int> src = {5, 4, 3};
  Same(MakeLimitedVector<5>(src.begin(), src.end()), {5, 4, 3});
  int arr[] = {3, 1, 2};
  Same(ToLimitedVector(arr), {3, 1, 2});
  std::string sarr[] = {Make<std::string>(3), Make<std::string>(1)};
  Same(ToLimitedVector(sarr), {3, 1});
  Same(ToLimitedVector(std::move(sarr)), {3, 1});
  Same(std::vector<int>{ValueOf((int)sarr[0].size()), ValueOf((int)sarr[1].size())}, {0, 0});
  {
    auto v = MakeLimitedVector("a", "bb", "ccc");
    std::vector<int> g;
    for (auto s : v) g.push_back(s.size());
    Same(g, {1, 2, 3});
  }
#ifndef VF_NO_CT
  struct R { int a[8]; };
  constexpr auto script = []() {
    LimitedVector<int, 5> v;
    v.push_back(3); v.emplace_back(4); v.push_back(5); v.pop_back(); v.emplace_back(6);
    LimitedVector<int, 5> w(v);
    w.push_back(9);
    v.clear(); v.resize(2); v.push_back(1);
    LimitedVector<int, 5> x(std::move(w));
    R r{};
    r.a[0] = (int)v.size(); r.a[1] = v[0]; r.a[2] = v[2]; r.a[3] = (int)x.size(); r.a[4] = x[2]; r.a[5] = x.at(3); r.a[6] = (int)w.size(); r.a[7] = (x < v) + 2 * (v == v) + 4 * (v == x);
    return r;
  };
  constexpr R ct = script();
  R rt = script();
  Same(std::vector<int>(ct.a, ct.a + 8), {3, 0, 1, 4, 6, 9, 0, 2});
  Same(std::vector<int>(rt.a, rt.a + 8), {3, 0, 1, 4, 6, 9, 0, 2});
#endif
}
constexpr auto kEmptyD = LimitedOptions<3, LimitedOptionsFlag::kEmptyDestructor>{};
int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  bool thorough = std::string(argv[3]) == "thorough";
  Rng r(seed + 77);
  static char big[1 << 20];
  setvbuf(stdout, big, _IOFBF, sizeof big);
  if (mode == "one") {
    static World<int, 3, short, 2> a; a.One(3, true); a.Compare();
    static World<std::string, 4, std::string, 3> b; b.One(thorough ? 4 : 3, thorough);
    static World<int, 1, int, 1> c; c.One(1, true);
    static World<std::string, 2, std::string, 3> d; d.One(3, true); d.Compare();
    static World<int, 0, int, 0> z; z.One(0, true);
    static World<int, kEmptyD, int, 2> f; f.One(2, true);
  } else if (mode == "hist") {
    for (int i = 0; i < (thorough ? 2500 : 250); ++i) {
      { static World<int, 5, short, 4> w; w.Hist(r, 30); }
      { static World<std::string, 6, std::string, 4> w; w.Hist(r, 30); }
      { static World<std::string, 3, std::string, 3> w; w.Hist(r, 30); }
      if (i % 5 == 0) { static World<std::string, 17, std::string, 9> w; w.Hist(r, 40); }
    }
  } else if (mode == "over") {
    static World<int, 3, int, 2> a; a.Over();
    static World<std::string, 2, std::string, 1> b; b.Over();
    static World<int, 1, int, 0> c; c.Over();
  } else if (mode == "life") {
    static World<Obj<0>, 4, Obj<0>, 3> a; a.One(thorough ? 4 : 3, false); a.Compare();
    static World<Obj<0>, 2, Obj<0>, 3> b; b.One(3, false);
    for (int i = 0; i < (thorough ? 3000 : 300); ++i) { a.Hist(r, 40); static World<Obj<0>, 7, Obj<0>, 5> w; w.Hist(r, 40); }
  } else if (mode == "misc") {
    Misc();
  }
  return 0;
}
