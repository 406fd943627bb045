#pragma once
#include "trace.h"
#include <memory>
#include <optional>
#include <tuple>
#include <utility>
using vf::Rec; using vf::Rng;
enum class Color { kRed, kBlue = 7 };
struct Inner1 { std::string v; };
struct Empty1 {}; struct Empty2 {};
struct Tracked {  // counts how often a value was copied or moved on its way
  int v = 0; int moves = 0; int copies = 0;
  Tracked() = default;
  explicit Tracked(int x) : v(x) {}
  Tracked(const Tracked& o) : v(o.v), moves(o.moves), copies(o.copies + 1) {}
  Tracked(Tracked&& o) noexcept : v(o.v), moves(o.moves + 1), copies(o.copies) { o.v = -1; }
  Tracked& operator=(const Tracked& o) { v = o.v; copies = o.copies + 1; moves = o.moves; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { v = o.v; moves = o.moves + 1; copies = o.copies; o.v = -1; return *this; }
};
static uint64_t g_seed; static bool g_thorough;
inline void Setup(int argc, char** argv) { g_seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1; g_thorough = argc > 2 && std::string(argv[2]) == "thorough"; }
// a value of each type denotes a number
static const char kTexts[256][4] = {};
inline void Set(int& x, int k) { x = k; }
inline void Set(long& x, int k) { x = k; }
inline void Set(unsigned char& x, int k) { x = (unsigned char)k; }
inline void Set(char& x, int k) { x = (char)k; }
inline void Set(unsigned short& x, int k) { x = (unsigned short)k; }
inline void Set(bool& x, int k) { x = k & 1; }
inline void Set(double& x, int k) { x = k + 0.25; }
inline void Set(float& x, int k) { x = k + 0.5F; }
inline void Set(Color& x, int k) { x = (Color)k; }
inline void Set(std::string& x, int k) { x = std::string(40, 'x') + std::to_string(k); }
inline void Set(Inner1& x, int k) { Set(x.v, k); }
inline void Set(const char*& x, int k) { x = kTexts[k & 255]; }
inline void Set(std::vector<int>& x, int k) { x = {k, k + 1}; }
inline void Set(std::optional<int>& x, int k) { x = k; }
inline void Set(std::pair<int, int>& x, int k) { x = {k, k + 1}; }
inline void Set(std::unique_ptr<int>& x, int k) { x = std::make_unique<int>(k); }
inline void Set(Tracked& x, int k) { x.v = k; x.moves = x.copies = 0; }
inline int Get(int x) { return x; }
inline int Get(long x) { return (int)x; }
inline int Get(unsigned char x) { return x; }
inline int Get(char x) { return x; }
inline int Get(unsigned short x) { return x; }
inline int Get(bool x) { return x; }
inline int Get(double x) { return x == (int)x + 0.25 ? (int)x : -2; }
inline int Get(float x) { return x == (int)x + 0.5F ? (int)x : -2; }
inline int Get(Color x) { return (int)x; }
inline int Get(const std::string& x) { return x.size() > 40 && x.substr(0, 40) == std::string(40, 'x') ? atoi(x.c_str() + 40) : -2; }
inline int Get(const Inner1& x) { return Get(x.v); }
inline int Get(const char* x) { return x ? (int)((x - kTexts[0]) / 4) : -2; }
inline int Get(const std::vector<int>& x) { return x.size() == 2 && x[1] == x[0] + 1 ? x[0] : -2; }
inline int Get(const std::optional<int>& x) { return x ? *x : -2; }
inline int Get(const std::pair<int, int>& x) { return x.second == x.first + 1 ? x.first : -2; }
inline int Get(const std::unique_ptr<int>& x) { return x ? *x : -2; }
inline int Get(const Tracked& x) { return x.v; }
template<typename T> int Mask(int k) { return std::is_same_v<T, bool> ? k & 1 : k; }  // k < 120
template<typename T> struct Shape;

template<typename T> void Observe() {
  using Sh = Shape<T>; using Types = typename Sh::Types;
  constexpr std::size_t N = std::tuple_size_v<Types>;
  Rng r(g_seed + N);
  T s{};
  auto fields = Sh::Fields(s);
  auto lt = mbo::types::StructToTuple(s);
  const T& cs = s;
  auto ct = mbo::types::StructToTuple(cs);
  constexpr std::size_t LN = std::tuple_size_v<decltype(lt)>, CN = std::tuple_size_v<decltype(ct)>, RN = std::tuple_size_v<decltype(mbo::types::StructToTuple(std::declval<T>()))>;
  Rec head("reset");
  head.str("shape", Sh::name).num("n", N).boolean("can", mbo::types::CanCreateTuple<T>).nums("sizes", std::vector<size_t>{LN, CN, RN});
  if constexpr (LN == N && CN == N && RN == N) {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      using L = decltype(lt); using C = decltype(ct); using R = decltype(mbo::types::StructToTuple(std::declval<T>()));
      head.nums("ltypes", std::vector<int>{std::is_same_v<std::tuple_element_t<I, L>, std::tuple_element_t<I, Types>&>...});
      head.nums("ctypes", std::vector<int>{std::is_same_v<std::tuple_element_t<I, C>, const std::tuple_element_t<I, Types>&>...});
      head.nums("rtypes", std::vector<int>{std::is_same_v<std::tuple_element_t<I, R>, std::tuple_element_t<I, Types>>...});
      // which field does element I designate?
      auto which = [&](const void* p) { std::vector<const void*> ps{(const void*)std::get<I>(fields)...}; for (size_t k = 0; k < ps.size(); ++k) if (ps[k] == p) return (int)k; return -1; };
      (void)which;
      head.nums("laddr", std::vector<int>{which((const void*)&std::get<I>(lt))...}).nums("caddr", std::vector<int>{which((const void*)&std::get<I>(ct))...});
      head.nums("isbool", std::vector<int>{std::is_same_v<std::tuple_element_t<I, Types>, bool>...});
      head.emit();
      if constexpr (N > 0) {
        using SetFn = void (*)(void*, int);
        std::vector<SetFn> set{+[](void* p, int k) { Set(*(std::tuple_element_t<I, Types>*)p, k); }...};
        std::vector<void*> direct{(void*)std::get<I>(fields)...}, alias{(void*)&std::get<I>(lt)...};
        auto view = [&](const char* op, int i, int v) {
          Rec(op).num("i", i).num("v", v).nums("s", std::vector<int>{Get(*std::get<I>(fields))...}).nums("l", std::vector<int>{Get(std::get<I>(lt))...}).nums("c", std::vector<int>{Get(std::get<I>(ct))...}).emit();
        };
        for (std::size_t k = 0; k < N; ++k) set[k](direct[k], 0);
        for (std::size_t k = 0; k < N; ++k) { const int v = 1 + k; set[k](direct[k], v); view("direct", k, v); }
        for (std::size_t k = 0; k < std::min<std::size_t>(N + 3, 24); ++k) { const int i = k < N ? k : r.below(N), v = r.below(110); const bool d = r.chance(30); set[i](d ? direct[i] : alias[i], v); view(d ? "direct" : "alias", i, v); }
        // move out of it: each field exactly once, none copied
        if constexpr (std::is_nothrow_move_constructible_v<T>) {
          std::vector<int> want{Get(*std::get<I>(fields))...};
          auto mt = mbo::types::StructToTuple(std::move(s));
          auto tr = []<typename F>(const F& f) { if constexpr (std::is_same_v<F, Tracked>) return f.moves * 100 + f.copies; else return 100; };
          Rec("moved").nums("want", want).nums("got", std::vector<int>{Get(std::get<I>(mt))...}).nums("moves", std::vector<int>{tr(std::get<I>(mt))...}).emit();
        }
      }
    }(std::make_index_sequence<N>{});
  } else head.emit();
}
struct CtAgg { int a; double b; char c; };
inline void Extra() {
  Rec("reset").str("shape", "extra").num("n", 0).boolean("can", true).nums("sizes", std::vector<int>{0, 0, 0}).raw("ltypes", "[]").raw("ctypes", "[]").raw("rtypes", "[]").raw("laddr", "[]").raw("caddr", "[]").raw("isbool", "[]").emit();
  constexpr auto t = mbo::types::StructToTuple(CtAgg{1, 2.5, 'x'});
  static_assert(std::tuple_size_v<decltype(t)> == 3);
#ifdef __clang__  // aggregates with reference members are only supported there
  int x = 1; const std::string y = "yy";
  struct Refs { int& a; const std::string& b; int c; } rf{x, y, 3};
  auto rt = mbo::types::StructToTuple(rf);
  Rec("refs").boolean("a", &std::get<0>(rt) == &x).boolean("b", &std::get<1>(rt) == &y).boolean("c", &std::get<2>(rt) == &rf.c).emit();
#endif
  Rec("moved").nums("want", std::vector<int>{1, 2, 'x'}).nums("got", std::vector<int>{std::get<0>(t), (int)std::get<1>(t), std::get<2>(t)}).nums("moves", std::vector<int>{100, 100, 100}).emit();
}
