// Demangle on mangled terms, compiler made names and texts, interleaved and from several threads.
#include <deque>
#include <map>
#include <memory>
#include <thread>
#include <typeinfo>
#include <vector>
#include "mbo/log/demangle.h"
#include "trace.h"
using mbo::log::Demangle;
using vf::Rec;
using vf::Rng;
struct Term;
using P = std::shared_ptr<Term>;
struct PartT { std::string id; std::vector<P> args; };
struct Term { std::string k, c; int n = 0; std::vector<P> a; std::vector<PartT> parts; bool std = false; };
static std::string J(const P& t);
static std::string JA(const std::vector<P>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + J(v[i]); return s + "]"; }
static std::string J(const P& t) {
  std::string s = "{\"k\":\"" + t->k + "\",\"c\":\"" + t->c + "\",\"n\":" + std::to_string(t->n) + ",\"std\":" + (t->std ? "true" : "false") + ",\"a\":" + JA(t->a) + ",\"parts\":[";
  for (size_t i = 0; i < t->parts.size(); ++i) s += (i ? "," : "") + ("{\"id\":\"" + t->parts[i].id + "\",\"args\":" + JA(t->parts[i].args) + "}");
  return s + "]}";
}
static std::string M(const P& t);
static std::string MA(const std::vector<P>& v, size_t from = 0) { std::string s; for (size_t i = from; i < v.size(); ++i) s += M(v[i]); return s; }
static std::string MName(const P& t) {
  std::string s;
  for (auto& p : t->parts) s += std::to_string(p.id.size()) + p.id + (p.args.empty() ? "" : "I" + MA(p.args) + "E");
  std::string st = t->std ? "St" : "";
  return t->parts.size() == 1 ? st + s : "N" + st + s + "E";
}
static std::string M(const P& t) {
  if (t->k == "b") return t->c;
  if (t->k == "ptr") return "P" + M(t->a[0]);
  if (t->k == "ref") return "R" + M(t->a[0]);
  if (t->k == "rref") return "O" + M(t->a[0]);
  if (t->k == "const") return "K" + M(t->a[0]);
  if (t->k == "fn") return "F" + M(t->a[0]) + (t->a.size() == 1 ? "v" : MA(t->a, 1)) + "E";
  if (t->k == "arr") return "A" + std::to_string(t->n) + "_" + M(t->a[0]);
  if (t->k == "name") return MName(t);
  if (t->k == "lit") return "L" + t->c + (t->n < 0 ? "n" : "") + std::to_string(std::abs(t->n)) + "E";
  return "_Z" + MName(t) + (t->a.empty() ? "v" : MA(t->a));
}
static P T(std::string k, std::vector<P> a = {}, int n = 0) { auto t = std::make_shared<Term>(); t->k = k; t->a = a; t->n = n; return t; }
static P B(std::string c) { auto t = T("b"); t->c = c; return t; }
static P L(std::string c, int n) { auto t = T("lit"); t->c = c; t->n = n; return t; }
static P N(std::vector<PartT> parts, bool std = false) { auto t = T("name"); t->parts = parts; t->std = std; return t; }
static std::string Id(Rng& r) {
  std::string s; int n = r.chance(3) ? 100 + r.below(300) : 1 + r.below(6);
  for (int i = 0; i < n; ++i) s += i && r.chance(20) ? "0123456789"[r.below(10)] : "abcxyzABZ_"[r.below(i ? 10 : 9)];
  return s;
}
static P Value(Rng& r, int d);
static P Arg(Rng& r, int d);
static std::vector<PartT> Parts(Rng& r, int d, bool last) {
  std::vector<PartT> ps; int n = 1 + r.below(3);
  for (int i = 0; i < n; ++i) {
    PartT p{Id(r), {}};
    if (i == 0 && n > 1 && r.chance(5)) p.id = "_GLOBAL__N_1";
    else if (d > 0 && (last || i + 1 < n) && r.chance(35)) for (int k = 1 + r.below(3); k; --k) p.args.push_back(r.chance(20) ? (r.chance(50) ? L(r.of<std::string>({"i", "j", "l", "m", "x", "y", "c", "s"}), r.below(1000)) : r.chance(50) ? L("i", -1 - (int)r.below(99)) : L("b", r.below(2))) : Arg(r, d - 1));
    ps.push_back(p);
  }
  return ps;
}
static P Basic(Rng& r, int d) {
  if (r.chance(50)) { static const char* c = "bcahstijlmxywfde"; return B(std::string(1, c[r.below(16)])); }
  return N(Parts(r, d, true), r.chance(30));
}
// anything but references
static P Value(Rng& r, int d) {
  if (d <= 0) return Basic(r, 0);
  switch (r.below(8)) {
    case 0: case 1: { P in = r.chance(10) ? B("v") : Value(r, d - 1); if (r.chance(30) && in->k != "const") in = T("const", {in}); return T("ptr", {in}); }
    case 2: { P p = T("ptr", {Value(r, d - 1)}); return r.chance(50) ? T("const", {p}) : p; }
    case 3: { std::vector<P> a{r.chance(30) ? B("v") : Basic(r, d - 1)}; for (int n = r.below(4); n; --n) a.push_back(Arg(r, d - 1)); return T("ptr", {T("fn", a)}); }
    case 4: return T("ptr", {T("arr", {Basic(r, d - 1)}, 1 + r.below(50))});
    default: return Basic(r, d);
  }
}
static P Arg(Rng& r, int d) {
  int k = r.below(10);
  if (k > 1) return Value(r, d);
  P in = Value(r, d - 1); if (r.chance(40) && in->k != "const") in = T("const", {in});
  return T(k ? "ref" : "rref", {in});
}
static P Top(Rng& r) {
  int d = r.below(5);
  switch (r.below(8)) {
    case 0: { auto t = T("sym"); t->std = r.chance(20); t->parts = Parts(r, d, false); for (int n = r.below(4); n; --n) t->a.push_back(Arg(r, d)); return t; }
    case 1: { std::vector<P> a{r.chance(30) ? B("v") : Basic(r, d)}; for (int n = r.below(4); n; --n) a.push_back(Arg(r, d)); return T("fn", a); }
    case 2: return T("arr", {Basic(r, d)}, 1 + r.below(9));
    default: return Arg(r, d);
  }
}
struct Job { std::string in, out, rec; };
static Job Make(Rng& r) {
  static const char odd[] = " !/-#(<:";
  Job j;
  int k = r.below(10);
  if (k < 6) { P t = Top(r); j.in = M(t); Rec e("type"); e.raw("t", J(t)); j.rec = e.take(); }
  else if (k < 8) {
    P t = Top(r); std::string tail(1, odd[r.below(8)]); if (r.chance(50)) tail += Id(r);
    j.in = M(t) + tail; Rec e("broken"); e.raw("t", J(t)).str("tail", tail); j.rec = e.take();
  } else {
    std::string s; int n = r.below(12);
    switch (r.below(4)) {
      case 0: s = std::string(1, "vbcahstijlmxywfde"[r.below(17)]) + Id(r); break;
      case 1: s = std::string("_") + "abc019 $"[r.below(8)] + (r.chance(50) ? Id(r) : ""); break;
      case 2: s = std::string(1, r.chance(50) ? "0 $.<-/\t\"\\"[r.below(10)] : (char)(128 + r.below(128))); for (int i = 0; i < n; ++i) { char c = (char)r.next(); if (c) s += c; } break;
      default: s = r.chance(50) ? "" : r.chance(50) ? "_" : "_Z"; if (r.chance(30)) { s = " "; s += std::string(1000 + r.below(4000), 'Z'); } break;
    }
    j.in = s; j.rec = Rec("text").take();
  }
  return j;
}
static void Out(const Job& j) {
  std::string s = j.rec; s.pop_back();
  s += ",\"in\":" + Rec::quoted(j.in) + ",\"out\":" + Rec::quoted(j.out) + "}\n";
  fwrite(s.data(), 1, s.size(), stdout);
}
namespace ns { struct Plain {}; namespace sub { template<typename A, int I> struct Tmpl { virtual ~Tmpl() = default; }; enum E { kE }; } struct Base { virtual ~Base() = default; }; struct Derived : Base {}; }
namespace { struct Hidden {}; }
template<typename A, bool B> struct Glob {};
static void Real(std::vector<Job>& js, P t, const char* name, std::string out) { Rec e("real"); e.raw("t", J(t)); js.push_back({name, out, e.take()}); }
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoi(argv[1]) : 1); bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
  std::vector<Job> js;
  auto plain = N({{"ns", {}}, {"Plain", {}}});
  auto real = [&]<typename V>(P t, V&& v) {
    Real(js, t, typeid(v).name(), mbo::log::DemangleV(v)); Real(js, t, typeid(v).name(), Demangle(typeid(v).name()));
    Real(js, t, typeid(v).name(), mbo::log::DemangleV(std::forward<V>(v)));
  };
  for (int rep = 0; rep < 3; ++rep) {
    real(B("i"), 1); real(B("v"), 0 ? 0 : 0);
    js.resize(js.size() - 3);
    real(plain, ns::Plain{});
    const ns::Plain cp{}; real(plain, cp);
    real(N({{"ns", {}}, {"sub", {}}, {"Tmpl", {plain, L("i", -7)}}}), ns::sub::Tmpl<ns::Plain, -7>{});
    real(N({{"ns", {}}, {"sub", {}}, {"Tmpl", {N({{"ns", {}}, {"sub", {}}, {"Tmpl", {plain, L("i", 1)}}}), L("i", 2)}}}), ns::sub::Tmpl<ns::sub::Tmpl<ns::Plain, 1>, 2>{});
    real(N({{"ns", {}}, {"sub", {}}, {"E", {}}}), ns::sub::kE);
    ns::Derived d; ns::Base& b = d;
    real(N({{"ns", {}}, {"Derived", {}}}), b);  // the type of the object
    real(N({{"_GLOBAL__N_1", {}}, {"Hidden", {}}}), Hidden{});
    auto alloc = [](P t) { return N({{"allocator", {t}}}, true); };
    real(N({{"vector", {B("i"), alloc(B("i"))}}}, true), std::vector<int>{});
    real(N({{"vector", {plain, alloc(plain)}}}, true), std::vector<ns::Plain>{});
    auto str = N({{"__cxx11", {}}, {"basic_string", {B("c"), N({{"char_traits", {B("c")}}}, true), alloc(B("c"))}}}, true);
    real(str, std::string("x"));
    auto pr = N({{"pair", {T("const", {str}), B("d")}}}, true);
    real(N({{"map", {str, B("d"), N({{"less", {str}}}, true), alloc(pr)}}}, true), std::map<std::string, double>{});
    real(N({{"Glob", {T("ptr", {T("const", {B("c")})}), L("b", 1)}}}), Glob<const char*, true>{});
    real(T("ptr", {T("const", {B("c")})}), (const char*)nullptr);
    real(T("ptr", {plain}), (ns::Plain*)nullptr);
    real(T("ptr", {T("fn", {B("i"), B("c"), plain})}), (int (*)(char, ns::Plain))nullptr);
    int arr[3]{}; real(T("arr", {B("i")}, 3), arr);
    real(N({{"nullptr_t", {}}}, true), nullptr); js.resize(js.size() - 3);
  }
  for (int i = 0, n = thorough ? 30000 : 6000; i < n; ++i) js.push_back(Make(r));
  // answers are kept while others are asked for
  std::vector<size_t> real_done;
  for (auto& j : js) if (j.out.empty() && j.rec.find("\"real\"") == std::string::npos) { j.out = Demangle(j.in.c_str()); if (r.chance(5)) (void)Demangle(j.out.c_str()); }
  for (auto& j : js) Out(j);
  // again, in another order and from several threads
  std::vector<std::thread> ts; std::vector<std::vector<Job>> per(4);
  for (int t = 0; t < 4; ++t) { Rng q(r.next()); for (int i = 0, n = thorough ? 6000 : 1200; i < n; ++i) { Job j; do { j = js[q.below(js.size())]; } while (j.rec.find("\"real\"") != std::string::npos); j.out = "?"; per[t].push_back(j); } }
  for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (auto& j : per[t]) { std::string buf = j.in; j.out = Demangle(buf.c_str()); buf.assign(buf.size(), '#'); } });
  for (auto& t : ts) t.join();
  for (auto& v : per) for (auto& j : v) Out(j);
  return 0;
}
