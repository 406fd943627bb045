// Edit histories of Json documents (J01) and their serializations (J02).
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>

#include "mbo/json/json.h"
#include "trace.h"

using mbo::json::Json;
using vf::Rec;

namespace {
constexpr int kDocs = 3;
std::ostringstream sink;  // what is written to the standard output
struct Step { bool name; size_t i; std::string n; };
using Path = std::vector<Step>;

const Json::Variant& Value(const Json& j) {
  static const mbo::types::StringifyOptions& o = mbo::types::Stringify::OptionsJson();
  static const mbo::types::StringifyFieldOptions f{o};
  return MboTypesStringifyValueAccess(j, f);
}

std::string Node(int k, const std::string& r, int64_t q, const std::string& s, const std::string& c, const std::string& n) {
  return "{\"k\":" + std::to_string(k) + ",\"r\":\"" + r + "\",\"q\":" + std::to_string(q) + ",\"s\":" + vf::Rec::arrayed(s) + ",\"c\":[" + c + "],\"n\":[" + n + "]}";
}
// A number: in quarters where small, otherwise its decimal digits.
std::string Num(const std::string& rep, double d) {
  const double q = d * 4;
  if (q == std::floor(q) && std::fabs(q) < (1 << 30)) return Node(3, rep, (int64_t)q, "", "", "");
  uint64_t b;
  std::memcpy(&b, &d, 8);
  char t[32];
  snprintf(t, sizeof t, "x%016llx", (unsigned long long)b);
  return Node(3, rep, 0, t, "", "");
}
std::string Num(const std::string& rep, int64_t v) { return v > -(1 << 28) && v < (1 << 28) ? Node(3, rep, v * 4, "", "", "") : Node(3, rep, 0, std::to_string(v), "", ""); }
std::string Num(const std::string& rep, uint64_t v) { return v < (1 << 28) ? Node(3, rep, (int64_t)v * 4, "", "", "") : Node(3, rep, 0, std::to_string(v), "", ""); }

std::string Dump(const Json& j) {
  if (j.IsNull()) return Node(0, "", 0, "", "", "");
  if (j.IsArray()) {
    std::string c;
    for (const Json& e : j) { if (!c.empty()) c += ","; c += Dump(e); }
    return Node(1, "", 0, "", c, "");
  }
  if (j.IsBool()) return Node(2, "", std::get<bool>(Value(j)) ? 1 : 0, "", "", "");
  if (j.IsSignedInt()) return Num("i", std::get<int64_t>(Value(j)));
  if (j.IsUnsignedInt()) return Num("u", std::get<uint64_t>(Value(j)));
  if (j.IsFloat()) return Num("d", std::get<double>(Value(j)));
  if (j.IsObject()) {
    std::string c, n;
    for (const auto& [name, v] : j.property_pairs()) {
      if (!n.empty()) { c += ","; n += ","; }
      c += Dump(v); n += vf::Rec::arrayed(name);
    }
    return Node(4, "", 0, "", c, n);
  }
  if (j.IsString()) return Node(5, "", 0, std::get<std::string>(Value(j)), "", "");
  return Node(9, "", 0, "", "", "");
}

std::string PathText(const Path& p) {
  std::string s = "[";
  for (const Step& st : p) {
    if (s.size() > 1) s += ",";
    s += st.name ? "{\"i\":0,\"n\":" + vf::Rec::arrayed(st.n) + "}" : "{\"i\":" + std::to_string(st.i + 1) + ",\"n\":[]}";
  }
  return s + "]";
}
size_t Height(const Json& j) {
  size_t h = 0;
  if (j.IsArray()) for (const Json& e : j) h = std::max(h, Height(e));
  if (j.IsObject()) for (const Json& e : j.property_values()) h = std::max(h, Height(e));
  return h + 1;
}
size_t Weight(const Json& j) {
  size_t w = 1;
  if (j.IsArray()) for (const Json& e : j) w += Weight(e);
  if (j.IsObject()) for (const Json& e : j.property_values()) w += Weight(e);
  return w;
}

struct Driver {
  vf::Rng g;
  Json d[kDocs];
  std::vector<std::string> names{"a", "b", "c", "aa", "", "B", "\xC3\xA9", std::string("z\0", 2), "quote\"", "with space and more"};
  std::vector<std::string> texts{"", "x", "y", "xx", "one\ntwo", "\"quoted\"", "back\\slash", "tab\tbell\a", std::string("nul\0x", 5), "\xE2\x82\xAC uro", "\x7f'/", "\x01\x1f"};

  explicit Driver(uint64_t seed) : g(seed) {}

  Path Walk(int di, int stop) {
    Path p;
    const Json* j = &d[di];
    while (!g.chance(stop)) {
      if (j->IsArray() && !j->empty()) {
        const size_t i = g.below(j->size());
        p.push_back({false, i, ""});
        j = &(*j)[i];
      } else if (j->IsObject() && !j->empty()) {
        std::vector<std::string> ns;
        for (const auto& n : j->property_names()) ns.push_back(n);
        const std::string n = g.of(ns);
        p.push_back({true, 0, n});
        j = &(*j)[n];
      } else {
        break;
      }
    }
    return p;
  }
  Json& Mut(int di, const Path& p) {
    Json* j = &d[di];
    for (const Step& s : p) {
      if (g.chance(50)) j = s.name ? &(*j)[s.n] : &(*j)[s.i];
      else j = s.name ? &j->at(s.n) : &j->at(s.i);
    }
    return *j;
  }
  const Json& Con(int di, const Path& p) {
    const Json* j = &d[di];
    for (const Step& s : p) {
      if (g.chance(50)) j = s.name ? &(*j)[s.n] : &(*j)[s.i];
      else j = s.name ? &j->at(s.n) : &j->at(s.i);
    }
    return *j;
  }
  // Gives a scalar of a random type to the function; the record names the type and the value.
  template<typename F> void Scalar(Rec& r, F&& f) {
    auto give = [&](const char* type, const std::string& v, auto&& x) { r.str("t", type).raw("v", v); f(std::forward<decltype(x)>(x)); };
    auto with = [&]<typename T>(const char* type, const char* rep, T v, auto wide) {
      const std::string n = Num(rep, wide);
      switch (g.below(3)) {
        case 0: give(type, n, std::move(v)); break;
        case 1: give(type, n, v); break;
        default: give(type, n, std::as_const(v)); break;
      }
    };
    const int64_t small = (int64_t)g.below(17) - 8;
    switch (g.below(20)) {
      case 0: give("null", Node(0, "", 0, "", "", ""), std::nullopt); break;
      case 1: case 2: {
        bool b = g.chance(50);
        const std::string n = Node(2, "", b, "", "", "");
        if (g.chance(50)) give("bool", n, b); else give("bool", n, (bool)b);
        break;
      }
      case 3: with("i8", "i", (int8_t)small, (int64_t)small); break;
      case 4: with("i16", "i", (int16_t)(small * 1000), (int64_t)(small * 1000)); break;
      case 5: case 6: with("i32", "i", (int)small, small); break;
      case 7: {
        const int64_t v = g.chance(50) ? small : g.of(std::vector<int64_t>{INT64_MIN, INT64_MAX, (1LL << 53) + 1, -(1LL << 53) - 1, 1LL << 31, 1234567890123456789LL, INT64_MIN + 1});
        with("i64", "i", v, v);
        break;
      }
      case 8: { const uint64_t v = g.below(256); with("u8", "u", (uint8_t)v, v); break; }
      case 9: { const uint64_t v = g.below(60000); with("u16", "u", (uint16_t)v, v); break; }
      case 10: { const uint64_t v = g.below(9); with("u32", "u", (uint32_t)v, v); break; }
      case 11: {
        const uint64_t v = g.chance(50) ? g.below(9) : g.of(std::vector<uint64_t>{UINT64_MAX, 1ULL << 63, (1ULL << 53) + 1, 1ULL << 32, UINT64_MAX - 1});
        with("u64", "u", v, v);
        break;
      }
      case 12: { const float v = (float)small / 4; with("f32", "d", v, (double)v); break; }
      case 13: { const double v = (double)small / 4; with("f64", "d", v, v); break; }
      case 14: { const std::string s = std::string(g.of(texts).c_str()); give("cstr", Node(5, "", 0, s, "", ""), s.c_str()); break; }
      case 15: give("lit", Node(5, "", 0, "lit", "", ""), "lit"); break;
      case 16: { const std::string s = g.of(texts); give("str", Node(5, "", 0, s, "", ""), s); break; }
      case 17: { std::string s = g.of(texts); give("str", Node(5, "", 0, s, "", ""), s); break; }
      case 18: { std::string s = g.of(texts); const std::string n = Node(5, "", 0, s, "", ""); give("str", n, std::move(s)); break; }
      default: { const std::string s = g.of(texts); give("sv", Node(5, "", 0, s, "", ""), std::string_view(s)); break; }
    }
  }
  void After(Rec& r) {
    std::string s = "[";
    for (int i = 0; i < kDocs; ++i) { if (i) s += ","; s += Dump(d[i]); }
    r.raw("after", s + "]");
  }
  // Runs f; a refused call is reported.
  template<typename F> void Do(Rec& r, F&& f) {
    bool threw = false;
    try { f(); } catch (const std::exception&) { threw = true; }
    r.boolean("threw", threw);
  }

  // Hands over part of a document in one of the ways.
  template<typename F> void Source(Rec& r, int to, const Path& tp, F&& f) {
    const int s = g.below(kDocs);
    const Path p = Walk(s, g.chance(30) ? 90 : 40);
    int how = g.below(4);
    bool above = s == to && p.size() <= tp.size();
    for (size_t i = 0; above && i < p.size(); ++i) above = p[i].name == tp[i].name && p[i].i == tp[i].i && p[i].n == tp[i].n;
    if (how == 2 && above) how = 0;  // a value cannot be moved into its own part
    if (Weight(d[s]) + Weight(d[to]) > 40) { r.str("t", "null").raw("v", Node(0, "", 0, "", "", "")); f(Json()); return; }
    r.num("s", s + 1).raw("sp", PathText(p));
    r.str("t", how == 0 ? "copy" : how == 1 ? "lvalue" : how == 2 ? "move" : "pointer");
    if (how == 3) {
      const auto u = std::make_unique<Json>(std::as_const(Con(s, p)));
      f(u);
    } else {
      Json& j = Mut(s, p);
      if (how == 0) f(std::as_const(j)); else if (how == 1) f(j); else f(std::move(j));
    }
  }
  // Any new value: a scalar or part of a document.
  template<typename F> void Any(Rec& r, int to, const Path& tp, F&& f) {
    if (g.chance(60)) Scalar(r, f); else Source(r, to, tp, f);
  }

  void Edit() {
    const int i = g.below(kDocs);
    const Path p = Walk(i, 35);
    auto rec = [&](const char* what) { Rec r(what); r.num("d", i + 1).raw("p", PathText(p)); return r; };
    const Json& seen = Con(i, p);
    const bool big = Weight(d[i]) > 30 || Height(d[i]) > 6;
    switch (big ? 30 + g.below(8) : g.below(38)) {
      case 0: case 1: case 2: {
        Rec r = rec("set");
        Json& j = Mut(i, p);
        Do(r, [&] { Any(r, i, p, [&](auto&& v) { j = std::forward<decltype(v)>(v); }); });
        After(r); r.emit();
        return;
      }
      case 3: case 4: case 5: case 6: case 7: {
        if (!seen.IsObject() && !seen.IsNull()) break;
        Rec r = rec("put");
        const std::string n = g.of(names);
        r.bytes("n", n);
        Json& j = Mut(i, p);
        Path q = p;
        q.push_back({true, 0, n});
        Do(r, [&] { Any(r, i, q, [&](auto&& v) { j[n] = std::forward<decltype(v)>(v); }); });
        After(r); r.emit();
        return;
      }
      case 8: case 9: case 10: case 11: case 12: {
        Rec r = rec("push");
        Json& j = Mut(i, p);
        const bool emplace = g.chance(50);
        r.num("back", 0);
        Path q = p;
        q.push_back({false, 999999, ""});
        Do(r, [&] {
          Any(r, i, q, [&](auto&& v) {
            if constexpr (std::is_constructible_v<Json, decltype(v)>) {
              if (emplace) {
                Json& b = j.emplace_back(std::forward<decltype(v)>(v));
                if (&b != &j[j.size() - 1]) abort();
              } else {
                j.push_back(std::forward<decltype(v)>(v));
              }
            } else {
              j.emplace_back(Json(*v));
            }
          });
        });
        After(r); r.emit();
        return;
      }
      case 13: case 14: case 15: {
        Rec r = rec("emplace");
        const std::string n = g.of(names);
        r.bytes("n", n);
        Json& j = Mut(i, p);
        Path q = p;
        q.push_back({true, 0, n});
        Do(r, [&] {
          Any(r, i, q, [&](auto&& v) {
            if constexpr (std::is_constructible_v<Json, decltype(v)>) {
              Json& b = j.emplace(n, std::forward<decltype(v)>(v));
              if (&b != &j[n]) abort();
            } else {
              j.emplace(n, *v);
            }
          });
        });
        After(r); r.emit();
        return;
      }
      case 16: case 17: {
        if (seen.IsNull() || g.chance(30)) {
        Rec r = rec("make");
        Json& j = Mut(i, p);
        const int k = g.below(3);
        r.num("to", k == 0 ? 1 : k == 1 ? 4 : 5);
        const std::string s = g.of(texts);
        r.bytes("text", s);
        Do(r, [&] { Json& same = k == 0 ? j.MakeArray() : k == 1 ? j.MakeObject() : g.chance(50) ? j.MakeString(s) : j.MakeString(std::string_view(s)); if (&same != &j) abort(); });
        After(r); r.emit();
        }
        return;
      }
      case 18: case 19: {
        if (!seen.IsArray() || seen.size() > 6) break;
        Rec r = rec("resize");
        Json& j = Mut(i, p);
        const size_t n = g.below(6);
        r.num("count", n);
        Do(r, [&] {
          if (g.chance(40)) { r.str("t", "null").raw("v", Node(0, "", 0, "", "", "")); j.resize(n); return; }
          Scalar(r, [&](auto&& v) { j.resize(n, v); });
        });
        After(r); r.emit();
        return;
      }
      case 20: {  // a new document from another, or a part of it
        Rec r = rec("set");
        Json& j = Mut(i, p);
        Do(r, [&] { Any(r, i, p, [&](auto&& v) {
          if constexpr (std::is_constructible_v<Json, decltype(v)>) { Json made(std::forward<decltype(v)>(v)); j = std::move(made); }
          else { Json made(*v); Json other; other = made; std::swap(j, other); }
        }); });
        After(r); r.emit();
        return;
      }
      case 21: {  // two documents change places
        Rec r = rec("swap");
        const int o = g.below(kDocs);
        if (o == i) break;
        r.num("s", o + 1);
        std::swap(d[i], d[o]);
        After(r); r.emit();
        return;
      }
      case 22: {  // refused calls
        Rec r = rec("refused");
        Json& j = Mut(i, p);
        const char* what = "none";
        Do(r, [&] {
          switch (g.below(7)) {
            case 0: if (j.IsArray()) { what = "index"; (void)j[j.size() + g.below(3)]; } break;
            case 1: if (!j.IsArray()) { what = "pop"; j.pop_back(); } break;
            case 2: if (!j.IsArray()) { what = "resize"; j.resize(2); } break;
            case 3: if (!j.IsArray()) { what = "begin"; (void)j.begin(); } break;
            case 4: if (!j.IsObject()) { what = "names"; (void)j.property_names(); } break;
            case 5: if (!j.IsArray() && !j.IsObject()) { what = "values"; (void)j.values(); } break;
            default: if (!j.IsObject()) { what = "pairs"; (void)std::as_const(j).property_pairs(); } break;
          }
        });
        r.str("what", what);
        After(r); r.emit();
        return;
      }
      case 30: case 31: {
        if (!seen.IsArray() || seen.empty()) break;
        Rec r = rec("pop");
        Json& j = Mut(i, p);
        Do(r, [&] { j.pop_back(); });
        After(r); r.emit();
        return;
      }
      case 32: case 33: {
        Rec r = rec("erase");
        const std::string n = g.of(names);
        r.bytes("n", n);
        Json& j = Mut(i, p);
        size_t c = 9;
        Do(r, [&] { c = j.erase(n); });
        r.num("count", c);
        After(r); r.emit();
        return;
      }
      case 34: case 35: {
        if (seen.empty()) break;
        Rec r = rec("cut");  // positions [from, to)
        Json& j = Mut(i, p);
        size_t from = g.below(j.size()), to = from + 1;
        std::vector<std::string> order, rest;
        if (j.IsObject()) for (const auto& n : std::as_const(j).property_names()) order.push_back(n);
        size_t at = 0;
        const int way = j.IsArray() ? g.below(6) : 2 + g.below(4);
        if (way == 1 || way >= 4) to = from + g.below(j.size() - from + 1);
        auto tail = [&](Json::value_iterator it) {
          const Json::value_iterator end = j.values().end();
          if (j.IsArray()) { at = 0; for (auto b = j.values().begin(); b != it; ++b) ++at; return; }
          const size_t total = j.size();
          size_t left = 0;
          for (; it != end; ++it) ++left;
          at = total - left;
        };
        Do(r, [&] {
          switch (way) {
            case 0: { auto it = j.erase(j.cbegin() + from); at = it - j.begin(); break; }
            case 1: { auto it = j.erase(j.cbegin() + from, j.begin() + to); at = it - j.begin(); break; }
            case 2: { auto b = std::as_const(j).values().begin(); for (size_t k = 0; k < from; ++k) ++b; tail(j.erase(b)); break; }
            case 3: { auto b = j.values().begin(); for (size_t k = 0; k < from; ++k) b++; Json::const_value_iterator cb; cb = b; tail(j.erase(cb)); break; }
            case 4: { auto b = std::as_const(j).values().begin(); for (size_t k = 0; k < from; ++k) ++b; auto e = b; for (size_t k = from; k < to; ++k) e++; tail(j.erase(b, e)); break; }
            default: { auto b = j.values().begin(); for (size_t k = 0; k < from; ++k) ++b; auto e = b; for (size_t k = from; k < to; ++k) ++e; Json::const_value_iterator cb, ce; cb = b; ce = std::move(e); tail(j.erase(cb, ce)); break; }
          }
        });
        r.num("from", from).num("to", to).bytess("order", order).num("at", at);
        After(r); r.emit();
        return;
      }
      case 36: {
        Rec r = rec("clear");
        Json& j = Mut(i, p);
        Do(r, [&] { j.clear(); });
        After(r); r.emit();
        return;
      }
      case 37: {
        Rec r = rec("reset_value");
        Json& j = Mut(i, p);
        Do(r, [&] { if (&j.Reset() != &j) abort(); });
        After(r); r.emit();
        return;
      }
      default: break;
    }
    if (g.chance(25)) Look();
  }

  template<typename C> std::string Dumps(C&& c) {
    std::string s = "[";
    for (const auto& v : c) { if (s.size() > 1) s += ","; s += Dump(v); }
    return s + "]";
  }
  void Look() {
    const int i = g.below(kDocs);
    const Path p = Walk(i, 35);
    Json& m = Mut(i, p);
    const Json& j = m;
    sink.str("");
    Rec r("look");
    r.num("d", i + 1).raw("p", PathText(p)).num("kind", (int)j.GetKind()).num("size", j.size()).boolean("empty", j.empty());
    r.raw("is", std::string("[") + (j.IsNull() ? "true" : "false") + (j.IsArray() ? ",true" : ",false") + (j.IsBool() ? ",true" : ",false") + (j.IsNumber() ? ",true" : ",false") + (j.IsObject() ? ",true" : ",false") + (j.IsString() ? ",true" : ",false") + "]");
    r.boolean("yes", j.IsTrue()).boolean("no", j.IsFalse()).boolean("whole", j.IsInteger()).boolean("bool", (bool)j).boolean("null", j == std::nullopt);
    std::vector<std::string> have;
    for (const auto& n : names) if (j.contains(n)) have.push_back(n);
    r.bytess("have", have);
    r.raw("v", Dump(j));
    std::vector<std::string> lists, ns;
    if (j.IsArray()) {
      lists.push_back(Dumps(j.values()));
      lists.push_back(Dumps(m.values()));
      lists.push_back(Dumps(j.array_values()));
      lists.push_back(Dumps(m.array_values()));
      lists.push_back(Dumps(std::vector<Json>(m.cbegin(), m.cend())));
      std::vector<Json> back(m.rbegin(), m.rend());
      if (g.chance(50)) back.assign(j.rbegin(), j.rend()); else if (g.chance(50)) back.assign(m.crbegin(), m.crend());
      std::reverse(back.begin(), back.end());
      lists.push_back(Dumps(back));
      if (m.values().size() != j.size() || j.values().empty() != j.empty()) lists.push_back("[]");
    } else if (j.IsObject()) {
      for (const auto& n : j.property_names()) ns.push_back(n);
      lists.push_back(Dumps(j.values()));
      lists.push_back(Dumps(m.values()));
      lists.push_back(Dumps(j.property_values()));
      lists.push_back(Dumps(m.property_values()));
      std::vector<Json> vs;
      std::vector<std::string> again;
      for (auto&& [n, v] : m.property_pairs()) { again.push_back(n); vs.push_back(v); }
      if (again != ns) again.clear(), vs.clear();
      lists.push_back(Dumps(vs));
    }
    std::string all = "[";
    for (const auto& s : lists) { if (all.size() > 1) all += ","; all += s; }
    r.raw("lists", all + "]").bytess("names", ns).num("noise", sink.str().size());
    r.emit();
  }
  void Cmp() {
    const int a = g.below(kDocs), b = g.below(kDocs);
    const Path p = Walk(a, 40);
    Path q = Walk(b, 40);
    Rec r("cmp");
    const Json& x = Con(a, p);
    auto sign = [](std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; };
    if (g.chance(40)) {
      r.num("d", a + 1).raw("p", PathText(p));
      Scalar(r, [&]<typename T>(T&& v) {
        r.num("ord", sign(x <=> v)).boolean("eq", x == v).boolean("lt", x < v);
      });
      r.emit();
      return;
    }
    const Json& y = Con(b, q);
    r.num("d", a + 1).raw("p", PathText(p)).num("s", b + 1).raw("sp", PathText(q)).str("t", "copy");
    r.num("ord", sign(x <=> y)).boolean("eq", x == y).boolean("lt", x < y);
    r.emit();
  }
  // Two objects with the same members, put in different orders.
  void Twins() {
    for (auto& x : d) x = Json();
    std::vector<std::string> ns = names;
    for (int i = 0; i < 2; ++i) {
      for (size_t k = 0; k < ns.size(); ++k) std::swap(ns[k], ns[g.below(ns.size())]);
      for (const auto& n : ns) d[i][n] = (int)n.size();
    }
    if (g.chance(50)) d[2] = std::as_const(d[1]);
    if (g.chance(30)) d[0][g.of(names)] = 7;
    if (g.chance(30)) d[1].erase(g.of(names));
    Rec r("given");
    After(r); r.emit();
    for (int i = 0; i < 6; ++i) Cmp();
  }

  void Histories(int n, int len) {
    for (int h = 0; h < n; ++h) {
      vf::Reset(h);
      for (auto& x : d) x = Json();
      if (g.chance(10)) Twins();
      for (int i = 0; i < len; ++i) {
        if (g.chance(78)) Edit(); else if (g.chance(60)) Cmp(); else Look();
      }
    }
  }
};

// J02
std::string BitsOf(double v) {
  uint64_t b;
  std::memcpy(&b, &v, 8);
  // sign, exponent, fraction as three limbs of 26, 26
  return "{\"neg\":" + std::string(b >> 63 ? "true" : "false") + ",\"e\":" + std::to_string((b >> 52) & 0x7FF) + ",\"hi\":" + std::to_string((b >> 26) & 0x3FFFFFF) + ",\"lo\":" + std::to_string(b & 0x3FFFFFF) + "}";
}
// A document for the reader: numbers as digits or as the parts of a double.
std::string Full(const Json& j) {
  auto node = [](const char* t, const std::string& rest) { return std::string("{\"k\":\"") + t + "\"" + rest + "}"; };
  if (j.IsNull()) return node("null", "");
  if (j.IsBool()) return node(std::get<bool>(Value(j)) ? "true" : "false", "");
  if (j.IsSignedInt()) return node("int", ",\"s\":" + vf::Rec::arrayed(std::to_string(std::get<int64_t>(Value(j)))));
  if (j.IsUnsignedInt()) return node("int", ",\"s\":" + vf::Rec::arrayed(std::to_string(std::get<uint64_t>(Value(j)))));
  if (j.IsFloat()) return node("float", ",\"f\":" + BitsOf(std::get<double>(Value(j))));
  if (j.IsString()) return node("str", ",\"s\":" + vf::Rec::arrayed(std::get<std::string>(Value(j))));
  std::string c, n;
  if (j.IsArray()) {
    for (const Json& e : j) { if (!c.empty()) c += ","; c += Full(e); }
    return node("arr", ",\"c\":[" + c + "]");
  }
  for (const auto& [name, v] : j.property_pairs()) {
    if (!n.empty()) { c += ","; n += ","; }
    c += Full(v); n += vf::Rec::arrayed(name);
  }
  return node("obj", ",\"n\":[" + n + "],\"c\":[" + c + "]");
}
struct Writer {
  vf::Rng g;
  bool thorough;
  double Float() {
    switch (g.below(9)) {
      case 0: return (double)((int64_t)g.below(2001) - 1000) / 8;
      case 1: return (double)((int64_t)g.below(2001) - 1000) / 1000;
      case 2: return 0.1 * (double)g.below(100);
      case 3: return g.of(std::vector<double>{0.0, -0.0, 1.0, 1e5, 1e6, 123456.0, 1234567.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 0.1, 0.3, 1.0 / 3, 2.0 / 3, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 4503599627370496.5, 1e-5, 1e-7, 123456789.125});
      case 4: { uint64_t b = g.next(); b = (b & 0x800FFFFFFFFFFFFFULL) | ((uint64_t)(1023 - 60 + g.below(120)) << 52); double v; std::memcpy(&v, &b, 8); return v; }
      case 5: { uint64_t b = g.next(); if (((b >> 52) & 0x7FF) == 0x7FF) b ^= 1ULL << 60; double v; std::memcpy(&v, &b, 8); return v; }
      case 6: return (double)(float)(0.1 * (double)g.below(1000));
      case 7: { double v = (double)g.below(1000000) / 100; return g.chance(50) ? std::nextafter(v, 1e9) : v; }
      default: return std::ldexp((double)(g.next() >> 11), -(int)g.below(60));
    }
  }
  std::string Text() {
    std::string s;
    const int n = g.below(6);
    for (int i = 0; i < n; ++i) {
      switch (g.below(8)) {
        case 0: s += (char)g.below(128); break;
        case 1: s += (char)g.below(32); break;
        case 2: s += g.of(std::vector<std::string>{"\"", "\\", "/", "'", "\x7f", "\\u0041", "\\n", "?"}); break;
        case 3: s += g.of(std::vector<std::string>{"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xE2\x80\xA8", "\xC2\x80"}); break;
        default: s += "abcXYZ019 _-:,{}[]"[g.below(18)]; break;
      }
    }
    return s;
  }
  Json Make(int depth) {
    Json j;
    switch (depth <= 0 ? g.below(7) : g.below(12)) {
      case 0: return j;
      case 1: j = g.chance(50); return j;
      case 2: j = (int64_t)g.next() >> g.below(64); return j;
      case 3: j = g.next() >> g.below(64); return j;
      case 4: j = Float(); return j;
      case 5: case 6: j = Text(); return j;
      case 7: case 8: {
        j.MakeArray();
        const int n = g.below(4);
        for (int i = 0; i < n; ++i) j.push_back(Make(depth - 1));
        return j;
      }
      default: {
        j.MakeObject();
        const int n = g.below(5);
        for (int i = 0; i < n; ++i) j[Text()] = Make(depth - 1);
        return j;
      }
    }
  }
  void Write(const Json& j) {
    static const std::string root_prefix = "\n ", root_suffix = " \n";
    static const std::vector<std::pair<const char*, Json::SerializeMode>> kModes{{"compact", Json::SerializeMode::kCompact}, {"line", Json::SerializeMode::kLine}, {"pretty", Json::SerializeMode::kPretty}};
    for (const auto& [mode_name, mode] : kModes) {
      sink.str("");
      std::string text;
      bool threw = false;
      mbo::types::StringifyRootOptions root;
      std::string prefix, suffix, indent;
      if (g.chance(20)) { prefix = root_prefix; suffix = root_suffix; root.root_prefix = prefix; root.root_suffix = suffix; }
      if (g.chance(20)) { indent = "    "; root.root_indent = indent; }
      try {
        if (g.chance(50)) { text = j.Serialize(mode, root); } else { std::ostringstream os; j.Stream(os, mode, root); text = os.str(); }
      } catch (const std::exception&) { threw = true; }
      Rec("json").str("mode", mode_name).boolean("threw", threw).raw("v", Full(j)).bytes("text", text).bytes("prefix", prefix).bytes("suffix", suffix).bytes("indent", indent).num("noise", sink.str().size()).emit();
    }
  }
  void Run(int n) {
    for (int c = 0; c < 256; ++c) {
      if (c == 128) break;
      Json j;
      j["k"] = std::string(1, (char)c);
      if (c % 4 == 0) j[std::string(1, (char)c) + "x"] = c;
      Write(j);
    }
    Write(Json());
    Write(Json().MakeArray());
    Write(Json(1));
    Write(Json(1.5));
    Write(Json("x"));
    Write(Json(true));
    Write(Json().MakeObject());
    for (int i = 0; i < n; ++i) {
      Json j;
      if (g.chance(30)) {
        for (int k = 0; k < 4; ++k) j[std::string(1, (char)('a' + k))] = Float();
      } else {
        j.MakeObject();
        const int m = g.below(5);
        for (int k = 0; k < m; ++k) j[Text()] = Make(3);
      }
      Write(j);
    }
  }
};
}  // namespace

int main(int argc, char** argv) {
  if (argc < 4) return 97;
  std::cout.rdbuf(sink.rdbuf());
  const uint64_t seed = strtoull(argv[2], nullptr, 10);
  const bool thorough = std::string_view(argv[3]) == "thorough";
  if (std::string_view(argv[1]) == "edit") {
    Driver d(seed);
    d.Histories(thorough ? 2500 : 500, 60);
  } else {
    Writer w{vf::Rng(seed + 7), thorough};
    w.Run(thorough ? 6000 : 900);
  }
  fflush(stdout);
  return 0;
}
