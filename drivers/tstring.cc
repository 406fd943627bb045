// Compile-time strings: every query observed on pairs of strings.
#include <cstdint>
#include <sstream>
#include <utility>
#include "mbo/types/tstring.h"
#include "trace.h"
#include <set>
using namespace mbo::types;
using vf::Rec;
static long N(std::size_t p) { return p == std::string_view::npos ? -1 : (long)p; }
template<typename... T> struct List {};
// all strings of length 0..3 over {a, b}, and some with NUL, high and special bytes
template<char... C> using S = tstring<C...>;
using Base = List<S<>, S<'a'>, S<'b'>, S<'a','a'>, S<'a','b'>, S<'b','a'>, S<'b','b'>,
  S<'a','a','a'>, S<'a','a','b'>, S<'a','b','a'>, S<'a','b','b'>, S<'b','a','a'>, S<'b','a','b'>, S<'b','b','a'>, S<'b','b','b'>,
  S<'\0'>, S<'a','\0'>, S<'\0','a'>, S<'a','\0','b'>, S<'\0','\0'>, S<'\xff'>, S<'a','\x80'>, S<'\x80','a','\xff'>>;
using More = List<S<'a','b','a','b','a','b'>, S<'a','a','b','a','a','b','a'>, S<'b','b','b','b','a'>, S<'a','b','\0','a','b','\0','c'>, S<'0','1','2','3','4','5','6','7','8','9'>>;
#ifdef VF_THOROUGH
using Extra = List<S<'a','a','a','a'>, S<'a','b','a','b'>, S<'b','a','b','a'>, S<'a','a','b','b'>, S<'b','a','a','b'>, S<'a','a','a','b'>, S<'b','a','a','a'>, S<'a','b','b','a','b','b'>, S<'\n','"','\\'>, S<' ',' '>>;
#else
using Extra = List<>;
#endif
template<typename A, typename B> struct Cat; template<typename... A, typename... B> struct Cat<List<A...>, List<B...>> { using type = List<A..., B...>; };
using Hay = Cat<Cat<Base, More>::type, Extra>::type;
static std::string Bytes(std::string_view v) { return Rec::arrayed(v); }
template<typename T> std::string Sv(T) { return std::string(T::str()); }

template<typename A, typename B> void Pair() {
  constexpr A a{}; constexpr B b{};
  const std::string bs(B::str());
  constexpr auto cat = a + b;
  constexpr std::size_t f = A::find(b), rf = A::rfind(b);
  constexpr bool sw = A::starts_with(b), ew = A::ends_with(b), co = A::contains(b), eq = a == b, is = A::is(b);
  constexpr auto cmp = a <=> b;
  auto sg = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
  auto so = [](auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; };
  Rec r("pair");
  r.bytes("a", A::str()).bytes("b", bs).num("find", N(f)).num("rfind", N(rf)).boolean("sw", sw).boolean("ew", ew).boolean("co", co)
      .nums("eqs", std::vector<int>{eq, is, a == bs, a == std::string_view(bs), !(a != bs), bs == a})
      .nums("cmps", std::vector<int>{so(cmp), sg(A::compare(bs)), so(a <=> bs), so(a <=> std::string_view(bs)), (a < b) ? -1 : (a > b) ? 1 : 0, (a <= bs ? (a >= bs ? 0 : -1) : 1)})
      .bytes("cat", decltype(cat)::str()).boolean("hasheq", A::Hash() == B::Hash() && A::StringHash() == B::StringHash() && std::hash<const A>{}(a) == std::hash<const B>{}(b));
  std::vector<long> fo, lo;
  for (std::size_t pos = 0; pos <= A::size() + 2; ++pos) { fo.push_back(N(A::find_first_of(std::string_view(bs), pos))); lo.push_back(N(A::find_last_of(std::string_view(bs), pos))); }
  fo.push_back(N(A::find_first_of(std::string_view(bs)))); lo.push_back(N(A::find_last_of(std::string_view(bs)))); lo.push_back(N(A::find_last_of(std::string_view(bs), std::string_view::npos)));
  r.nums("fo", fo).nums("lo", lo).emit();
}
template<typename A, typename... B> void Pairs(List<B...>) { (Pair<A, B>(), ...); }
template<typename... A> void AllPairs(List<A...>) { (Pairs<A>(Base{}), ...); }

template<typename A, std::size_t P, std::size_t... C> std::string Subs(std::index_sequence<C...>) {
  std::string s; ((s += (s.empty() ? "" : ",") + Bytes(decltype(A::template substr<P, C>())::str())), ...); return s;
}
template<typename A, std::size_t... P> std::string SubAll(std::index_sequence<P...>) {
  std::string s; ((s += (s.empty() ? "[" : ",[") + Subs<A, P>(std::make_index_sequence<sizeof...(P)>{}) + "]"), ...); return s;
}
template<typename A, std::size_t... P> std::string SubTail(std::index_sequence<P...>) {
  std::string s; ((s += (s.empty() ? "" : ",") + Bytes(decltype(A::template substr<P>())::str())), ...); return s;
}
template<typename A> void Single() {
  constexpr std::size_t M = A::size() + 2;
  Rec r("one");
  std::string it, rit, cit;
  for (auto i = A::begin(); i != A::end(); ++i) it += *i;
  for (auto i = A::cbegin(); i != A::cend(); ++i) cit += *i;
  for (auto i = A::rbegin(); i != A::rend(); ++i) rit += *i;
  std::string rt = "[", rtail = "[";
  for (std::size_t p = 0; p < M; ++p) {
    rt += p ? ",[" : "["; for (std::size_t c = 0; c < M; ++c) rt += (c ? "," : "") + Bytes(A::substr(p, c)); rt += "]";
    rtail += (p ? "," : "") + Bytes(A::substr(p));
  }
  std::ostringstream os; os << A{};
  r.bytes("s", A::str()).nums("sizes", std::vector<size_t>{A::size(), A::length(), A::max_size(), std::size_t(A::end() - A::begin()), std::string_view(A::c_str(), A::size()).size()}).boolean("empty", A::empty())
      .bytes("it", it).bytes("cit", cit).bytes("rit", rit).bytes("conv", std::string_view(A{})).bytes("os", os.str()).num("term", (unsigned char)A::c_str()[A::size()]).bytes("cstr", std::string(A::c_str(), A::size()))
      .raw("sub", "[" + SubAll<A>(std::make_index_sequence<M>{}) + "]").raw("subtail", "[" + SubTail<A>(std::make_index_sequence<M>{}) + "]").raw("rt", rt + "]").raw("rtail", rtail + "]");
  if constexpr (A::size() > 0) r.nums("ends", std::vector<int>{(unsigned char)A::front(), (unsigned char)A::back()}); else r.raw("ends", "[]");
  r.boolean("shash", A::StringHash() == mbo::hash::GetHash64(std::string_view(A::str())));
  std::string js = "[";
  bool first = true;
  for (char c : {'a', 'b', '\0', '\xff', 'z'}) {
    std::vector<long> fo, lo;
    for (std::size_t p = 0; p <= A::size() + 2; ++p) { fo.push_back(N(A::find_first_of(c, p))); lo.push_back(N(A::find_last_of(c, p))); }
    Rec q("x"); q.num("c", (unsigned char)c).nums("fo", fo).nums("lo", lo).num("f0", N(A::find_first_of(c))).num("l0", N(A::find_last_of(c)));
    js += (first ? "" : ",") + q.take(); first = false;
  }
  r.raw("chars", js + "]").emit();
}
template<typename... A> void Singles(List<A...>) { (Single<A>(), ...); }
template<typename... A> void Distinct(List<A...>) {
  const std::set<uint64_t> h{A::Hash()...}, s{A::StringHash()...};
  Rec("distinct").num("n", sizeof...(A)).num("h", h.size()).num("s", s.size()).emit();
}
inline constexpr char kGlobal[] = "glo bal";
int main() {
  Singles(Hay{});
  AllPairs(Hay{});
  Distinct(Hay{});
  Rec("lit").bytes("got", decltype("he\"llo\n"_ts)::str()).bytes("want", "he\"llo\n").emit();
  Rec("lit").bytes("got", decltype(""_ts)::str()).bytes("want", "").emit();
  Rec("lit").bytes("got", decltype("a\0b"_ts)::str()).bytes("want", std::string_view("a\0b", 3)).emit();
  Rec("lit").bytes("got", decltype(make_tstring<kGlobal>())::str()).bytes("want", "glo bal").emit();
  using types_internal::tstring_input_len;
  namespace types_internal = mbo::types::types_internal;
  constexpr auto m = MBO_MAKE_TSTRING("mac\0ro");
  Rec("lit").bytes("got", m.str()).bytes("want", std::string_view("mac\0ro", 6)).emit();
}
