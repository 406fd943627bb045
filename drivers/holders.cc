// Value and reference holders: every operation from every pair of small states, random histories,
// comparisons, hashes, printed forms, reads and writes without a value in processes of their own,
// and lives of the owned values.
// argv: mode(all|life) seed tier
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include <functional>
#include "life.h"
#include "absl/hash/hash.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_cat.h"
namespace vf {
template<typename H, int T> H AbslHashValue(H h, const Obj<T>& o) { LifeLog::add(kUse, &o); return H::combine(std::move(h), o.v); }
template<typename S, int T> void AbslStringify(S& sink, const Obj<T>& o) { LifeLog::add(kUse, &o); absl::Format(&sink, "%d", o.v); }
// can be moved, but neither copied nor assigned
struct Mo {
  explicit Mo(int x) : v(std::make_unique<int>(x)) {}
  Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete;
  Mo(Mo&&) noexcept = default; Mo& operator=(Mo&&) = delete;
  std::unique_ptr<int> v;
};
}
#include "mbo/types/required.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/opaque.h"
#include "mbo/types/no_destruct.h"
using namespace vf;
namespace vf { MBO_TYPES_OPAQUE_HOOKS(Obj<0>) }
namespace std { MBO_TYPES_OPAQUE_HOOKS(std::string) }
template<> struct std::hash<vf::Obj<0>> { size_t operator()(const vf::Obj<0>& o) const { return (size_t)o.v * 7919; } };

static int Val(int v) { return v; }
static int Val(const Obj<0>& o) { LifeLog::add(kUse, &o); return o.v; }
static int Val(const Mo& o) { return o.v ? *o.v : -1; }
static int Val(const std::string& s) { return s.empty() ? 0 : s.size() < 40 || s.substr(0, 40) != std::string(40, '#') ? -100 : atoi(s.c_str() + 40); }
template<class V> V Mk(int x) {
  if constexpr (std::is_same_v<V, std::string>) return x == 0 ? std::string() : std::string(40, '#') + std::to_string(x);
  else return V(x);
}
static const char* Text(int x) { static std::string s[100]; auto& r = s[x + 2]; if (r.empty()) r = Mk<std::string>(x); return r.c_str(); }

struct Args { int t = 1, s = 1, i = 1, x = 0; };
struct Post { int k = 0, i = 0; std::vector<int> v; };
enum { kAny = 0, kHas = 1, kSrcHas = 2, kDistinct = 4 };
struct Variant { std::string o; int need; std::function<int(const Args&)> f; };

template<class A, class B> std::vector<int> Six(const A& a, const B& b) {
  std::vector<int> r(6, 2);
  if constexpr (requires { { a == b } -> std::convertible_to<bool>; }) r[0] = a == b;
  if constexpr (requires { { a != b } -> std::convertible_to<bool>; }) r[1] = a != b;
  if constexpr (requires { { a < b } -> std::convertible_to<bool>; }) r[2] = a < b;
  if constexpr (requires { { a <= b } -> std::convertible_to<bool>; }) r[3] = a <= b;
  if constexpr (requires { { a > b } -> std::convertible_to<bool>; }) r[4] = a > b;
  if constexpr (requires { { a >= b } -> std::convertible_to<bool>; }) r[5] = a >= b;
  return r;
}
template<class A, class B> std::vector<int> SixRev(const B& x, const A& a) {  // as if the other way round
  auto r = Six(x, a);
  std::swap(r[2], r[4]); std::swap(r[3], r[5]);
  return r;
}
static bool Any(const std::vector<int>& b) { for (int x : b) if (x != 2) return true; return false; }

// N holders of one type over NC cells
template<class K, class V, int kLeft> struct World {
  static constexpr int N = 3, NC = 3;
  using Value = V;
  static constexpr int kLeftCode = kLeft;
  alignas(K) unsigned char raw[N + 1][sizeof(K)];
  std::vector<V> cells;
  bool made[N + 1] = {};
  std::vector<Variant> ops;
  World() { for (int i = 0; i < NC; ++i) cells.push_back(Mk<V>(i + 1)); }
  K& h(int t) { return *std::launder(reinterpret_cast<K*>(raw[t])); }
  const K& c(int t) { return h(t); }
  void Kill(int t) { if (made[t]) { made[t] = false; h(t).~K(); } }
  template<class... A> void Make(int t, A&&... a) { Kill(t); ::new (raw[t]) K(std::forward<A>(a)...); made[t] = true; }
  V& cell(int i) { return cells[i - 1]; }
  int CellOf(const V* p) { for (int i = 0; i < NC; ++i) if (p == &cells[i]) return i + 1; return 0; }
  void Add(std::string o, int need, std::function<int(const Args&)> f) { ops.push_back({o, need, f}); }
  void Done() { for (int t = 1; t <= N; ++t) Kill(t); cells.clear(); }
  template<class Read> Post Shown(int kind, const V* at, Read read) {
    Post p; p.k = kind;
    if (kind == 2) p.i = CellOf(at);
    if (kind) p.v = read();
    return p;
  }
};

#define F [&](const Args& a) -> int
template<class V, int L> struct RequiredWorld : World<mbo::types::Required<V>, V, L> {
  using K = mbo::types::Required<V>;
  using W = World<K, V, L>;
  static constexpr const char* kName = "Required";
  static constexpr bool kHasNone = false;
  void Start() { for (int t = 1; t <= 3; ++t) this->Make(t, Mk<V>(t)); }
  std::vector<int> StartState() { return {1, 1, 1, 2, 1, 3}; }
  void Setup() {
    auto add = [&](auto... x) { this->Add(x...); };
    add("own", kAny, F { this->Make(a.t, Mk<V>(a.x)); return 0; });
    add("own", kAny, F { V v = Mk<V>(a.x); this->Make(a.t, std::move(v)); return 0; });
    add("own", kAny, F { this->Make(a.t, std::in_place, Mk<V>(a.x)); return 0; });
    add("own", kAny, F { if (&this->h(a.t).emplace(Mk<V>(a.x)) != &this->h(a.t)) return -5; return 0; });
    if constexpr (std::is_same_v<V, std::string>) {
      add("own", kAny, F { this->Make(a.t, Text(a.x)); return 0; });
      add("own", kAny, F { this->Make(a.t, std::in_place, Text(a.x), strlen(Text(a.x))); return 0; });
      add("own", kAny, F { this->h(a.t).emplace(Text(a.x), strlen(Text(a.x))); return 0; });
    } else {
      add("own", kAny, F { this->Make(a.t, std::in_place, a.x); return 0; });
      if constexpr (!std::is_same_v<V, int>) add("own", kAny, F { this->Make(a.t, a.x); return 0; });
      add("own", kAny, F { int x = a.x; this->h(a.t).template emplace<int&>(x); return 0; });
    }
    if constexpr (std::is_copy_constructible_v<V>) {
      add("own", kAny, F { const V v = Mk<V>(a.x); this->Make(a.t, v); return 0; });
      add("own", kAny, F { const V v = Mk<V>(a.x); this->h(a.t).template emplace<const V&>(v); return 0; });
      add("copy", kDistinct, F { this->Make(a.t, this->c(a.s)); return 0; });
      add("copy", kDistinct, F { K k = this->c(a.s); this->Make(a.t, std::move(k)); return 0; });
    }
    if constexpr (std::is_copy_assignable_v<K>) add("copy", kAny, F { this->h(a.t) = this->c(a.s); return 0; });
    if constexpr (std::is_move_assignable_v<K>) {
      add("move", std::is_same_v<V, std::string> ? kDistinct : kAny, F { this->h(a.t) = std::move(this->h(a.s)); return 0; });
      add("own", kAny, F { this->h(a.t) = K(Mk<V>(a.x)); return 0; });
      add("swap", kDistinct, F { std::swap(this->h(a.t), this->h(a.s)); return 0; });
      add("write", kAny, F { this->h(a.t).get() = Mk<V>(a.x); return 0; });
      add("write", kAny, F { *this->h(a.t) = Mk<V>(a.x); return 0; });
      add("write", kAny, F { V& v = this->h(a.t); v = Mk<V>(a.x); return 0; });
      add("write", kAny, F { *(this->h(a.t).operator->()) = Mk<V>(a.x); return 0; });
    }
    add("move", kDistinct, F { this->Make(a.t, std::move(this->h(a.s))); return 0; });
  }
  Post Show(int t) {
    auto& h = this->h(t); auto& c = this->c(t);
    const V& r = c; V& m = h;
    return this->Shown(1, nullptr, [&] { return std::vector<int>{Val(h.get()), Val(c.get()), Val(*h), Val(*c), Val(*h.operator->()), Val(*c.operator->()), Val(r), Val(m)}; });
  }
};
template<class V> struct RefWrapWorld : World<mbo::types::RefWrap<V>, std::remove_const_t<V>, 1> {
  using K = mbo::types::RefWrap<V>;
  using U = std::remove_const_t<V>;
  static constexpr const char* kName = "RefWrap";
  static constexpr bool kHasNone = false;
  void Start() { for (int t = 1; t <= 3; ++t) this->Make(t, this->cell(t)); }
  std::vector<int> StartState() { return {2, 1, 2, 2, 2, 3}; }
  void Setup() {
    auto add = [&](auto... x) { this->Add(x...); };
    add("bind", kAny, F { this->Make(a.t, this->cell(a.i)); return 0; });
    add("bind", kAny, F { this->h(a.t) = this->cell(a.i); return 0; });
    add("bind", kAny, F { K k = this->cell(a.i); this->h(a.t) = k; return 0; });
    add("copy", kDistinct, F { this->Make(a.t, this->c(a.s)); return 0; });
    add("copy", kAny, F { this->h(a.t) = this->c(a.s); return 0; });
    add("copy", kAny, F { this->h(a.t) = this->h(a.s); return 0; });
    add("move", kDistinct, F { this->Make(a.t, std::move(this->h(a.s))); return 0; });
    add("move", kAny, F { this->h(a.t) = std::move(this->h(a.s)); return 0; });
    add("swap", kDistinct, F { std::swap(this->h(a.t), this->h(a.s)); return 0; });
    if constexpr (!std::is_const_v<V>) {
      add("write", kAny, F { this->h(a.t).get() = Mk<U>(a.x); return 0; });
      add("write", kAny, F { *this->h(a.t) = Mk<U>(a.x); return 0; });
      add("write", kAny, F { V& v = this->h(a.t); v = Mk<U>(a.x); return 0; });
      add("write", kAny, F { *(this->h(a.t).operator->()) = Mk<U>(a.x); return 0; });
    }
    add("cell", kAny, F { this->cell(a.i) = Mk<U>(a.x); return 0; });
  }
  Post Show(int t) {
    auto& h = this->h(t); auto& c = this->c(t);
    const U& r = c; V& m = h;
    return this->Shown(2, &c.get(), [&] { return std::vector<int>{Val(h.get()), Val(c.get()), Val(*h), Val(*c), Val(*h.operator->()), Val(*c.operator->()), Val(r), Val(m)}; });
  }
};
template<class V> struct OptionalRefWorld : World<mbo::types::OptionalRef<V>, std::remove_const_t<V>, 1> {
  using K = mbo::types::OptionalRef<V>;
  using U = std::remove_const_t<V>;
  static constexpr const char* kName = "OptionalRef";
  static constexpr bool kHasNone = true;
  void Start() { for (int t = 1; t <= 3; ++t) this->Make(t); }
  std::vector<int> StartState() { return {0, 0, 0, 0, 0, 0}; }
  void Setup() {
    auto add = [&](auto... x) { this->Add(x...); };
    add("bind", kAny, F { this->Make(a.t, this->cell(a.i)); return 0; });
    add("bind", kAny, F { if (&this->h(a.t).set_ref(this->cell(a.i)) != &this->h(a.t)) return -5; return 0; });
    add("null", kAny, F { this->Make(a.t); return 0; });
    add("null", kAny, F { this->Make(a.t, std::nullopt); return 0; });
    add("null", kAny, F { if (&this->h(a.t).reset() != &this->h(a.t)) return -5; return 0; });
    add("copy", kDistinct, F { this->Make(a.t, this->c(a.s)); return 0; });
    add("copy", kDistinct, F { K k(this->c(a.s)); this->Make(a.t, k); return 0; });
    add("move", kDistinct, F { this->Make(a.t, std::move(this->h(a.s))); return 0; });
    if constexpr (!std::is_const_v<V>) {
      add("write", kHas, F { if (&(this->h(a.t) = Mk<U>(a.x)) != &this->h(a.t)) return -5; return 0; });
      add("write", kHas, F { U v = Mk<U>(a.x); this->h(a.t) = v; return 0; });
      add("write", kHas, F { const U v = Mk<U>(a.x); this->h(a.t) = v; return 0; });
      if constexpr (std::is_same_v<V, std::string>) add("write", kHas, F { this->h(a.t) = Text(a.x); return 0; });
      else add("write", kHas, F { this->h(a.t) = a.x; return 0; });
      add("write", kHas, F { this->h(a.t).value() = Mk<U>(a.x); return 0; });
      add("write", kHas, F { *this->h(a.t) = Mk<U>(a.x); return 0; });
      add("write", kHas, F { *(this->h(a.t).operator->()) = Mk<U>(a.x); return 0; });
    }
    add("read", kHas, F { return Val(this->h(a.t).value()); });
    add("read", kHas, F { return Val(this->c(a.t).value()); });
    add("read", kHas, F { return Val(*this->c(a.t)); });
    add("read", kHas, F { return Val(*(this->h(a.t).operator->())); });
    add("read", kHas, F { return Val(*(this->c(a.t).operator->())); });
    add("cell", kAny, F { this->cell(a.i) = Mk<U>(a.x); return 0; });
  }
  Post Show(int t) {
    auto& h = this->h(t); auto& c = this->c(t);
    bool has = h.has_value();
    if ((bool)h != has) return {9, 9, {}};
    return this->Shown(has ? 2 : 0, has ? &c.value() : nullptr, [&] { return std::vector<int>{Val(h.value()), Val(c.value()), Val(*h), Val(*c), Val(*h.operator->()), Val(*c.operator->())}; });
  }
};
template<class V, class R> struct DataOrRefWorld : World<mbo::types::OptionalDataOrRef<V, R>, V, 0> {
  using K = mbo::types::OptionalDataOrRef<V, R>;
  static constexpr const char* kName = "OptionalDataOrRef";
  static constexpr bool kHasNone = true;
  void Start() { for (int t = 1; t <= 3; ++t) this->Make(t); }
  std::vector<int> StartState() { return {0, 0, 0, 0, 0, 0}; }
  void Setup() {
    auto add = [&](auto... x) { this->Add(x...); };
    auto me = [&](int t, K& k) { return &k == &this->h(t) ? 0 : -5; };
    add("own", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t).emplace(Mk<V>(a.x))); });
    add("own", kAny, F { this->Make(a.t, Mk<V>(a.x)); return 0; });
    add("own", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t) = Mk<V>(a.x)); });
    add("own", kAny, F { const V v = Mk<V>(a.x); this->h(a.t).emplace(v); return 0; });
    add("own", kAny, F { this->h(a.t) = K(Mk<V>(a.x)); return 0; });
    add("own", kAny, F { this->h(a.t).as_data() = Mk<V>(a.x); return 0; });
    if constexpr (std::is_same_v<V, std::string>) {
      add("own", kAny, F { this->h(a.t) = (const char*)Text(a.x); return 0; });
      add("own", kAny, F { this->h(a.t).emplace(Text(a.x), strlen(Text(a.x))); return 0; });
      add("adopt", kAny, F { return Val(this->h(a.t).as_data(Text(a.x))); });
    } else if constexpr (!std::is_same_v<V, int>) {
      add("own", kAny, F { this->h(a.t) = (int)a.x; return 0; });
      add("own", kAny, F { this->h(a.t).emplace(a.x); return 0; });
      add("adopt", kAny, F { return Val(this->h(a.t).as_data(a.x)); });
    }
    add("adopt", kAny, F { return Val(this->h(a.t).as_data(Mk<V>(a.x))); });
    add("bind", kAny, F { this->Make(a.t, this->cell(a.i)); return 0; });
    add("bind", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t).set_ref(this->cell(a.i))); });
    if constexpr (std::is_const_v<R>) add("bind", kAny, F { this->Make(a.t, std::as_const(this->cell(a.i))); return 0; });
    add("null", kAny, F { this->Make(a.t); return 0; });
    add("null", kAny, F { this->Make(a.t, std::nullopt); return 0; });
    add("null", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t).reset()); });
    add("null", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t) = std::nullopt); });
    if constexpr (!std::is_const_v<R>) {
      add("set", kAny, [&, me](const Args& a) -> int { V v = Mk<V>(a.x); return me(a.t, this->h(a.t) = v); });
      add("set", kAny, F { const V v = Mk<V>(a.x); this->h(a.t) = v; return 0; });
      add("write", kHas, F { this->h(a.t).value() = Mk<V>(a.x); return 0; });
      add("write", kHas, F { *this->h(a.t) = Mk<V>(a.x); return 0; });
      add("write", kHas, F { *(this->h(a.t).operator->()) = Mk<V>(a.x); return 0; });
    }
    add("copy", kDistinct, F { this->Make(a.t, this->c(a.s)); return 0; });
    add("copy", kDistinct, F { this->Make(a.t, this->h(a.s)); return 0; });
    add("copy", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t) = this->c(a.s)); });
    add("copy", kAny, F { this->h(a.t) = K(this->c(a.s)); return 0; });
    add("move", kDistinct, F { this->Make(a.t, std::move(this->h(a.s))); return 0; });
    add("move", kAny, [&, me](const Args& a) -> int { return me(a.t, this->h(a.t) = std::move(this->h(a.s))); });
    add("swap", kDistinct, F { std::swap(this->h(a.t), this->h(a.s)); return 0; });
    add("get", kAny, F { return Val(this->c(a.t).get(Mk<V>(a.x))); });
    add("get", kAny, F { const V v = Mk<V>(a.x); const V& r = this->h(a.t).get(v); return this->h(a.t).has_value() || &r == &v ? Val(r) : -5; });
    add("read", kHas, F { return Val(this->h(a.t).value()); });
    add("read", kHas, F { return Val(this->c(a.t).value()); });
    add("read", kHas, F { return Val(*this->h(a.t)); });
    add("read", kHas, F { return Val(*(this->c(a.t).operator->())); });
    add("cell", kAny, F { this->cell(a.i) = Mk<V>(a.x); return 0; });
#if __cplusplus >= 202302L
    if constexpr (std::is_same_v<V, int>) add("get0", kAny, F { return Val(this->c(a.t).get()); });
#endif
  }
  Post Show(int t) {
    auto& h = this->h(t); auto& c = this->c(t);
    if (h.HoldsData() + h.HoldsNullopt() + h.HoldsReference() != 1) return {9, 9, {}};
    int k = h.HoldsData() ? 1 : h.HoldsReference() ? 2 : 0;
    if (h.has_value() != (k != 0) || (bool)c != (k != 0)) return {9, 9, {}};
    if (k == 1) for (auto& x : this->cells) if (&c.value() == &x) return {9, 9, {}};
    return this->Shown(k, k == 2 ? &c.value() : nullptr, [&] { return std::vector<int>{Val(h.value()), Val(c.value()), Val(*h), Val(*c), Val(*h.operator->()), Val(*c.operator->())}; });
  }
};
template<class V, int kPtr> struct OpaqueWorld : World<std::conditional_t<kPtr, mbo::types::OpaquePtr<V>, mbo::types::OpaqueValue<V>>, V, 0> {
  using K = std::conditional_t<kPtr, mbo::types::OpaquePtr<V>, mbo::types::OpaqueValue<V>>;
  static constexpr const char* kName = kPtr ? "OpaquePtr" : "OpaqueValue";
  static constexpr bool kHasNone = true;
  bool gone[4] = {};  // moved from: only to be assigned or destroyed
  bool has(int t) { if constexpr (kPtr) return this->h(t) != nullptr; else return !gone[t]; }
  template<class... A> void Own(int t, A&&... a) {
    if constexpr (kPtr) this->Make(t, mbo::types::MakeOpaquePtr<V>(std::forward<A>(a)...));
    else { this->Make(t, std::forward<A>(a)...); gone[t] = false; }
  }
  void Start() { for (int t = 1; t <= 3; ++t) { Own(t, Mk<V>(t)); gone[t] = false; } }
  std::vector<int> StartState() { return {1, 1, 1, 2, 1, 3}; }
  void Setup() {
    auto add = [&](auto... x) { this->Add(x...); };
    add("own", kAny, F { Own(a.t, Mk<V>(a.x)); return 0; });
    add("own", kAny, F { const V v = Mk<V>(a.x); Own(a.t, v); return 0; });
    if constexpr (std::is_same_v<V, std::string>) {
      add("own", kAny, F { Own(a.t, Text(a.x)); return 0; });
      add("own", kAny, F { Own(a.t, Text(a.x), strlen(Text(a.x))); return 0; });
    } else {
      add("own", kAny, F { Own(a.t, a.x); return 0; });
      add("own", kAny, F { int x = a.x; Own(a.t, x); return 0; });
    }
    add("write", kHas, F { *this->h(a.t) = Mk<V>(a.x); return 0; });
    add("write", kHas, F { *(this->h(a.t).operator->()) = Mk<V>(a.x); return 0; });
    if constexpr (!kPtr) {
      add("own", kAny, F { this->h(a.t) = K(Mk<V>(a.x)); gone[a.t] = false; return 0; });
      add("copy", kDistinct | kSrcHas, F { this->Make(a.t, this->c(a.s)); gone[a.t] = false; return 0; });
      add("copy", kDistinct | kSrcHas, F { this->Make(a.t, this->h(a.s)); gone[a.t] = false; return 0; });
      add("copy", kSrcHas, F { if (&(this->h(a.t) = this->c(a.s)) != &this->h(a.t)) return -5; gone[a.t] = false; return 0; });
      add("copy", kSrcHas, F { K k = this->c(a.s); this->h(a.t) = std::move(k); gone[a.t] = false; return 0; });
    } else {
      add("null", kAny, F { this->h(a.t).reset(); return 0; });
      add("null", kAny, F { this->Make(a.t); return 0; });
    }
    add("move", kDistinct, F { this->Make(a.t, std::move(this->h(a.s))); gone[a.t] = gone[a.s]; gone[a.s] = true; return 0; });
    add("move", kDistinct, F { this->h(a.t) = std::move(this->h(a.s)); gone[a.t] = gone[a.s]; gone[a.s] = true; return 0; });
    add("swap", kAny, F { std::swap(this->h(a.t), this->h(a.s)); std::swap(gone[a.t], gone[a.s]); return 0; });
    add("cell", kAny, F { this->cell(a.i) = Mk<V>(a.x); return 0; });
  }
  Post Show(int t) {
    auto& h = this->h(t); auto& c = this->c(t);
    // no two holders may share
    if (has(t)) for (int u = 1; u <= 3; ++u) if (u != t && has(u) && &*h == &*this->h(u)) return {9, 9, {}};
    return this->Shown(has(t) ? 1 : 0, nullptr, [&] { return std::vector<int>{Val(*h), Val(*c), Val(*h.operator->()), Val(*c.operator->())}; });
  }
};
#undef F

template<class W> struct Run {
  bool life = false;
  bool on = (LifeLog::on() = true);  // from the first object on
  W w;
  template<class X> static bool Comparable() { return true; }
  bool HasValue(int t) {
    if constexpr (requires { w.has(t); }) return w.has(t);
    else if constexpr (requires { w.h(t).has_value(); }) return w.h(t).has_value();
    else return true;
  }
  void Begin() {
    w.Start();
    auto st = w.StartState();
    std::string hs = "[";
    for (int t = 0; t < 3; ++t) hs += (t ? ",[" : "[") + std::to_string(st[2 * t]) + "," + std::to_string(st[2 * t + 1]) + "]";
    Rec("reset").str("kind", W::kName).nums("cells", std::vector<int>{1, 2, 3}).raw("holds", hs + "]").num("left", W::kLeftCode).emit();
    Life();
  }
  void Life() { if (life) EmitLife({}); else LifeLog::evs().clear(); }
  std::string Posts() {
    std::string s = "[";
    for (int t = 1; t <= 3; ++t) {
      Post p = w.Show(t);
      Rec r("h");
      r.num("k", p.k).num("i", p.i).nums("v", p.v);
      if (t > 1) s += ",";
      s += r.take();
    }
    return s + "]";
  }
  void Do(const Variant& v, Args a) {
    bool ok = !(v.need & kHas) || HasValue(a.t);
    if ((v.need & kDistinct) && a.s == a.t) return;
    if ((v.need & kSrcHas) && !HasValue(a.s)) return;
    if (!ok && std::string_view(W::kName).starts_with("Opaque")) return;
    std::string o = v.o;
    if (o == "get0") { o = "get"; a.x = 0; }
    if (!ok) {
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); v.f(a); _exit(0); }
      int st = 0; waitpid(pid, &st, 0);
      Rec("over").str("o", o).num("t", a.t).num("s", a.s).num("i", a.i).num("x", a.x).boolean("died", st != 0).emit();
      return;
    }
    int ret = v.f(a);
    std::vector<int> cs;
    std::string post = Posts();
    for (auto& x : w.cells) cs.push_back(Val(x));
    Rec("do").str("o", o).num("t", a.t).num("s", a.s).num("i", a.i).num("x", a.x).num("ret", ret).raw("post", post).nums("cells", cs).emit();
    Life();
  }
  void Compare(int t, int s) {
    using K = std::remove_cvref_t<decltype(w.h(1))>;
    using V = typename W::Value;
    if constexpr (std::is_same_v<V, Mo> || std::string_view(W::kName) == "OpaquePtr") return;
    else {
      if constexpr (std::string_view(W::kName).starts_with("Opaque")) if (!HasValue(t) || !HasValue(s)) return;
      // equality of required strings is not offered (does not compile)
      if constexpr (!(std::string_view(W::kName) == "Required" && std::is_same_v<V, std::string>)) {
        auto b = Six(w.c(t), w.c(s));
        Rec("cmp").num("t", t).num("s", s).nums("b", b).emit();
      }
      for (int x = -1; x < 5; ++x) {
        const V v = Mk<V>(x);
        if (std::is_same_v<V, std::string> && x < 0) continue;
        auto b = Six(w.c(t), v);
        if (Any(b)) Rec("cmpx").num("t", t).num("x", x).nums("b", b).emit();
        auto r = SixRev(v, w.c(t));
        if (Any(r)) Rec("cmpx").num("t", t).num("x", x).nums("b", r).emit();
      }
      // against the designated cells themselves
      for (auto& v : w.cells) {
        auto b = Six(w.c(t), v);
        if (Any(b)) Rec("cmpx").num("t", t).num("x", Val(v)).nums("b", b).emit();
      }
      if constexpr (W::kHasNone && !std::string_view(W::kName).starts_with("Opaque")) {
        auto b = Six(w.c(t), std::nullopt);
        if (Any(b)) Rec("cmpn").num("t", t).nums("b", b).emit();
        auto r = SixRev(std::nullopt, w.c(t));
        if (Any(r)) Rec("cmpn").num("t", t).nums("b", r).emit();
      }
      std::vector<size_t> seen;
      auto id = [&](size_t h) { for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == h) return (int)i; seen.push_back(h); return (int)seen.size() - 1; };
      std::vector<int> hs;
      for (int u = 1; u <= 3; ++u) hs.push_back(std::string_view(W::kName).starts_with("Opaque") && !HasValue(u) ? -1 : id(absl::HashOf(w.c(u))));
      Rec("hash").nums("h", hs).emit();
      if constexpr (requires(const K& k) { std::hash<K>{}(k); }) {
        seen.clear(); hs.clear();
        for (int u = 1; u <= 3; ++u) hs.push_back(!HasValue(u) ? -1 : id(std::hash<K>{}(w.c(u))));
        Rec("hash").nums("h", hs).emit();
      }
      if constexpr (!std::is_same_v<V, std::string> && !std::string_view(W::kName).starts_with("Opaque")) {
        std::vector<std::string> ss, sf;
        for (int u = 1; u <= 3; ++u) { ss.push_back(absl::StrCat(w.c(u))); sf.push_back(absl::StrFormat("%v", w.c(u))); }
        Rec("str").strs("s", ss).emit();
        Rec("str").strs("s", sf).emit();
      }
    }
  }
  void End() { w.Done(); Life(); if (life) { Rec("end").num("left", 0).emit(); } LifeLog::on() = false; LifeLog::evs().clear(); }
};
static int gSalt = 0;
template<class W> void All(bool life, uint64_t seed, bool thorough) {
  using V = typename W::Value;
  if (life && !std::is_same_v<V, Obj<0>>) return;
  Rng g(seed * 131 + ++gSalt);
  size_t nops;
  { W w; w.Setup(); nops = w.ops.size(); }
  // every operation from every pair of states
  std::vector<Args> states;  // i: 0 nothing, 1 owning x, 2 reference to i... coded as (s = kind)
  auto find = [&](W& w, const char* o) -> int { for (size_t k = 0; k < w.ops.size(); ++k) if (w.ops[k].o == o) return (int)k; return -1; };
  { W w; w.Setup();
    if (find(w, "null") >= 0) states.push_back({1, 0, 1, 0});
    if (find(w, "own") >= 0) { states.push_back({1, 1, 1, 1}); states.push_back({1, 1, 1, 4}); }
    if (find(w, "bind") >= 0) { states.push_back({1, 2, 1, 0}); states.push_back({1, 2, 3, 0}); }
    states.push_back({1, 3, 1, 0});  // left by a move
  }
  const char* kSet[] = {"null", "own", "bind", "move"};
  for (auto& p : states) for (auto& q : states) {
    Run<W> r; r.life = life; r.w.Setup(); r.Begin();
    auto put = [&](int t, const Args& st) { auto& v = r.w.ops[find(r.w, kSet[st.s])]; if (st.s == 3) { Args a{3, t, 1, 0}; for (auto& m : r.w.ops) if (m.o == "move") { r.Do(m, a); break; } } else r.Do(v, {t, 3, st.i, st.x}); };
    for (size_t k = 0; k < nops; ++k)
      for (int t = 1; t <= 2; ++t) for (int s = 1; s <= 2; ++s) {
        if (t != 1 && !(r.w.ops[k].o == "copy" || r.w.ops[k].o == "move" || r.w.ops[k].o == "swap")) continue;
        if (s != 1 && !(r.w.ops[k].o == "copy" || r.w.ops[k].o == "move" || r.w.ops[k].o == "swap")) continue;
        if ((r.w.ops[k].need & kHas) && p.s == 0 && (&p != &q)) continue;  // refusals need only be seen once
        put(1, p); put(2, q);
        if (k == 0 && t == 1 && s == 1 && !life) { for (int x = 1; x <= 3; ++x) for (int y = 1; y <= 3; ++y) r.Compare(x, y); }
        r.Do(r.w.ops[k], {t, s, 2, 3});
        // independence afterwards
        if (int c = find(r.w, "cell"); c >= 0) { r.Do(r.w.ops[c], {1, 1, 2, 7}); r.Do(r.w.ops[c], {1, 1, 2, 2}); }
        if (int c = find(r.w, "write"); c >= 0 && r.HasValue(2)) r.Do(r.w.ops[c], {2, 1, 1, 5});
        if (int c = find(r.w, "cell"); c >= 0) { r.Do(r.w.ops[c], {1, 1, 1, 1}); r.Do(r.w.ops[c], {1, 1, 3, 3}); r.Do(r.w.ops[c], {1, 1, 2, 2}); }
      }
    r.End();
  }
  for (int n = 0; n < (thorough ? 200 : 30); ++n) {
    Run<W> r; r.life = life; r.w.Setup(); r.Begin();
    for (int k = 0; k < 40; ++k) {
      const Variant& v = r.w.ops[g.below(nops)];
      Args a{(int)g.below(3) + 1, (int)g.below(3) + 1, (int)g.below(3) + 1, (int)g.below(5)};
      if ((v.need & kHas) && !r.HasValue(a.t) && g.chance(90)) continue;
      r.Do(v, a);
      if (!life && g.chance(15)) r.Compare(g.below(3) + 1, g.below(3) + 1);
    }
    r.End();
  }
}
// Never destroyed: values are constructed once, read, written, and stay when the holder goes
template<class V> void NoDestructs(bool life, uint64_t seed) {
  using K = mbo::types::NoDestruct<V>;
  if (life && !std::is_same_v<V, Obj<0>>) return;
  Rng g(seed * 17 + 3);
  for (int n = 0; n < 20; ++n) {
    if (life) LifeLog::on() = true;
    K* h[3];
    for (int t = 0; t < 3; ++t) {
      void* m = malloc(sizeof(K));
      V v = Mk<V>(t + 1);
      const V& cv = v;
      if ((n + t) % 4 == 0) h[t] = new (m) K(Mk<V>(t + 1));
      else if ((n + t) % 4 == 1) h[t] = new (m) K(cv);
      else if constexpr (std::is_same_v<V, std::string>) { if ((n + t) % 4 == 2) h[t] = new (m) K(Text(t + 1)); else h[t] = new (m) K(Text(t + 1), strlen(Text(t + 1))); }
      else if ((n + t) % 4 == 2) h[t] = new (m) K(t + 1);
      else { h[t] = new (m) K(); h[t]->Get() = Mk<V>(t + 1); }
    }
    Rec("reset").str("kind", "NoDestruct").nums("cells", std::vector<int>{}).raw("holds", "[[1,1],[1,2],[1,3]]").num("left", 1).emit();
    if (life) EmitLife({});
    for (int k = 0; k < 30; ++k) {
      int t = g.below(3), x = g.below(6);
      if (k % 3 == 0) *(*h[t]) = Mk<V>(x); else if (k % 3 == 1) h[t]->Get() = Mk<V>(x); else *(h[t]->operator->()) = Mk<V>(x);
      std::string s = "[";
      for (int u = 0; u < 3; ++u) {
        const K& c = *h[u];
        Rec r("h");
        r.num("k", 1).num("i", 0).nums("v", std::vector<int>{Val(c.Get()), Val(*c), Val(*c.operator->()), Val(h[u]->Get()), Val(**h[u]), Val(*h[u]->operator->())});
        s += (u ? "," : "") + r.take();
      }
      Rec("do").str("o", "write").num("t", t + 1).num("s", 1).num("i", 1).num("x", x).num("ret", 0).raw("post", s + "]").nums("cells", std::vector<int>{}).emit();
      if (life) { EmitLife({}); continue; }
      std::vector<int> hs; std::vector<std::string> ss;
      std::vector<size_t> seen;
      for (int u = 0; u < 3; ++u) {
        size_t q = absl::HashOf(*h[u]); size_t i = 0;
        for (; i < seen.size() && seen[i] != q; ++i) {}
        if (i == seen.size()) seen.push_back(q);
        hs.push_back(i);
        if constexpr (!std::is_same_v<V, std::string>) ss.push_back(absl::StrCat(*h[u]));
      }
      Rec("hash").nums("h", hs).emit();
      if constexpr (!std::is_same_v<V, std::string>) Rec("str").strs("s", ss).emit();
    }
    for (int u = 0; u < 3; ++u) h[u]->~K();
    if (life) { EmitLife({}); Rec("end").num("left", 3).emit(); LifeLog::on() = false; }
    if (life) for (int u = 0; u < 3; ++u) { (**h[u]).~V(); }  // ours to end
    else if constexpr (!std::is_same_v<V, int>) for (int u = 0; u < 3; ++u) { V* p = &h[u]->Get(); p->~V(); }
    for (int u = 0; u < 3; ++u) free(h[u]);
    LifeLog::evs().clear();
  }
}
int main(int argc, char** argv) {
  bool life = argc > 1 && std::string(argv[1]) == "life";
  uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  bool th = argc > 3 && std::string(argv[3]) == "thorough";
#if VF_SET == 0
  All<RequiredWorld<int, 1>>(life, seed, th);
  All<RequiredWorld<Obj<0>, 2>>(life, seed, th);
  All<RequiredWorld<std::string, 3>>(life, seed, th);
  All<RequiredWorld<Mo, 2>>(life, seed, th);
  All<RefWrapWorld<int>>(life, seed, th);
  All<RefWrapWorld<const int>>(life, seed, th);
  All<RefWrapWorld<Obj<0>>>(life, seed, th);
  All<RefWrapWorld<std::string>>(life, seed, th);
  NoDestructs<int>(life, seed);
  NoDestructs<Obj<0>>(life, seed);
  NoDestructs<std::string>(life, seed);
#elif VF_SET == 1
  All<OptionalRefWorld<int>>(life, seed, th);
  All<OptionalRefWorld<const int>>(life, seed, th);
  All<OptionalRefWorld<Obj<0>>>(life, seed, th);
  All<OptionalRefWorld<std::string>>(life, seed, th);
  All<DataOrRefWorld<int, int>>(life, seed, th);
  All<DataOrRefWorld<int, const int>>(life, seed, th);
  All<DataOrRefWorld<Obj<0>, Obj<0>>>(life, seed, th);
  All<DataOrRefWorld<Obj<0>, const Obj<0>>>(life, seed, th);
  All<DataOrRefWorld<std::string, std::string>>(life, seed, th);
#else
  All<OpaqueWorld<Obj<0>, 0>>(life, seed, th);
  All<OpaqueWorld<std::string, 0>>(life, seed, th);
  All<OpaqueWorld<Obj<0>, 1>>(life, seed, th);
#endif
}
