// Element type whose whole life is recorded: every construction, copy, move, assignment,
// destruction and reading use, with the address as identity.
#pragma once
#include <compare>
#include <map>
#include <string>
#include <vector>
#include "trace.h"
namespace vf {
enum LifeKind { kCtor = 0, kCopyCtor = 1, kMoveCtor = 2, kCopyAssign = 3, kMoveAssign = 4, kDtor = 5, kUse = 6 };
struct LifeLog {
  struct Ev { int k; const void* a; const void* b; };
  static bool& on() { static bool x = false; return x; }
  static std::vector<Ev>& evs() { static std::vector<Ev> x; return x; }
  static void add(int k, const void* a, const void* b = nullptr) { if (on()) evs().push_back({k, a, b}); }
  // storage of the containers: [base, base + n elements)
  struct Store { const char* base; size_t n; };
  static std::vector<Store>& stores() { static std::vector<Store> x; return x; }
};
template<int Tag = 0>
struct Obj {
  int v;
  Obj() : v(0) { LifeLog::add(kCtor, this); }
  Obj(int x) : v(x) { LifeLog::add(kCtor, this); }
  Obj(const Obj& o) : v(o.v) { LifeLog::add(kCopyCtor, this, &o); }
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; LifeLog::add(kMoveCtor, this, &o); }
  Obj& operator=(const Obj& o) { LifeLog::add(kCopyAssign, this, &o); v = o.v; return *this; }
  Obj& operator=(Obj&& o) noexcept { LifeLog::add(kMoveAssign, this, &o); int x = o.v; o.v = -1; v = x; return *this; }
  ~Obj() { LifeLog::add(kDtor, this); v = -9; }
  friend bool operator==(const Obj& a, const Obj& b) { LifeLog::add(kUse, &a); LifeLog::add(kUse, &b); return a.v == b.v; }
  friend std::strong_ordering operator<=>(const Obj& a, const Obj& b) { LifeLog::add(kUse, &a); LifeLog::add(kUse, &b); return a.v <=> b.v; }
};
static_assert(sizeof(Obj<0>) == sizeof(int));
// Emits all events since the last call; addresses inside the storage of container t become
// t * 1000 + element, all others 100000 + a number per address.
inline void EmitLife(const std::vector<int>& sizes, size_t per_slot = 1) {
  static std::map<const void*, int> ids;
  auto id = [&](const void* p) -> int {
    if (!p) return -1;
    auto& st = LifeLog::stores();
    for (size_t t = 0; t < st.size(); ++t) {
      const char* c = (const char*)p;
      if (st[t].base && c >= st[t].base && c < st[t].base + st[t].n * sizeof(int)) return (int)((t + 1) * 1000 + (c - st[t].base) / sizeof(int));
    }
    auto it = ids.find(p);
    if (it == ids.end()) it = ids.emplace(p, 100000 + (int)ids.size()).first;
    return it->second;
  };
  std::string s = "[";
  for (auto& e : LifeLog::evs()) {
    if (s.size() > 1) s += ',';
    s += "[" + std::to_string(e.k) + "," + std::to_string(id(e.a)) + "," + std::to_string(id(e.b)) + "]";
  }
  LifeLog::evs().clear();
  Rec("life").raw("ev", s + "]").nums("sizes", sizes).num("per", per_slot).emit();
}
}  // namespace vf
