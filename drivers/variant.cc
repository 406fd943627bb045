// Overloaded visits and variant type tests, over generated sets of overloads and types.
#include <variant>
#include <utility>
#include <tuple>
#include <string>
#include <vector>
#include <optional>
#include "mbo/types/variant.h"
#include "trace.h"
using namespace vf;
using mbo::types::Overloaded;
static int gCalls;
template<int I> struct A { int v; };
using Got = std::vector<int>;
template<int I> struct On1 { Got operator()(A<I>& a) const { ++gCalls; return {I, 1, a.v}; } };
template<int I> struct On2 { Got operator()(const A<I>& a) const { ++gCalls; return {I, 2, a.v}; } };
template<int I> struct On3 { Got operator()(A<I>&& a) const { ++gCalls; return {I, 3, a.v}; } };
struct OnAny { template<class T> Got operator()(const T& a) const { ++gCalls; return {-1, 0, a.v}; } };
template<int I, int F> using On = std::conditional_t<F == 1, On1<I>, std::conditional_t<F == 2, On2<I>, On3<I>>>;
template<class... O> struct Ovs {
  template<class X> using add = Ovs<O..., X>;
  using type = Overloaded<O...>;
};
template<class L, int I, int M> struct AddForms {
  template<class Q, int F> using one = std::conditional_t<(M >> (F - 1)) & 1, typename Q::template add<On<I, F>>, Q>;
  using type = one<one<one<L, 1>, 2>, 3>;
};
template<class V, class O> void Visit(const V& proto, const O& ov, const std::vector<std::pair<int, int>>& forms, int held, int value) {
  std::string fs = "[";
  for (auto& f : forms) fs += (fs.size() > 1 ? ",[" : "[") + std::to_string(f.first) + "," + std::to_string(f.second) + "]";
  fs += "]";
  for (int cat = 0; cat < 3; ++cat) {
    V v = proto;
    gCalls = 0;
    Got g = cat == 0 ? std::visit(ov, v) : cat == 1 ? std::visit(ov, std::as_const(v)) : std::visit(ov, std::move(v));
    Rec("visit").num("cat", cat).raw("overloads", fs).num("held", held).num("value", value).num("calls", gCalls).nums("got", g).emit();
  }
}
template<int M> void Two() {  // two alternatives, any forms of overload for each
  using V = std::variant<A<0>, A<1>>;
  using L0 = typename AddForms<Ovs<>, 0, M & 7>::type;
  using L1 = typename AddForms<L0, 1, (M >> 3) & 7>::type;
  using O = typename L1::template add<OnAny>::type;
  std::vector<std::pair<int, int>> forms;
  for (int i = 0; i < 2; ++i) for (int f = 1; f <= 3; ++f) if ((M >> (3 * i + f - 1)) & 1) forms.push_back({i, f});
  Visit(V(A<0>{M + 3}), O{}, forms, 0, M + 3);
  Visit(V(A<1>{M + 5}), O{}, forms, 1, M + 5);
}
template<int M> void Five() {  // five alternatives, one overload or none for each
  using V = std::variant<A<0>, A<1>, A<2>, A<3>, A<4>>;
  using L0 = typename AddForms<Ovs<>, 0, (M & 1) * 2>::type;
  using L1 = typename AddForms<L0, 1, ((M >> 1) & 1) * 2>::type;
  using L2 = typename AddForms<L1, 2, ((M >> 2) & 1) * 2>::type;
  using L3 = typename AddForms<L2, 3, ((M >> 3) & 1) * 2>::type;
  using L4 = typename AddForms<L3, 4, ((M >> 4) & 1) * 2>::type;
  using O = typename L4::template add<OnAny>::type;
  std::vector<std::pair<int, int>> forms;
  for (int i = 0; i < 5; ++i) if ((M >> i) & 1) forms.push_back({i, 2});
  Visit(V(A<0>{7}), O{}, forms, 0, 7);
  Visit(V(A<1>{8}), O{}, forms, 1, 8);
  Visit(V(A<2>{9}), O{}, forms, 2, 9);
  Visit(V(A<3>{10}), O{}, forms, 3, 10);
  Visit(V(A<4>{11}), O{}, forms, 4, 11);
}
// deduced from lambdas, with state and with results of several types
static void Lambdas() {
  using V = std::variant<A<0>, A<1>, A<2>>;
  for (int held = 0; held < 3; ++held) for (int x = 0; x < 4; ++x) {
    V v = held == 0 ? V(A<0>{x}) : held == 1 ? V(A<1>{x}) : V(A<2>{x});
    gCalls = 0;
    Got g;
    int state = 0;
    std::visit(Overloaded{[&](const A<0>& a) { ++gCalls; g = {0, 2, a.v}; }, [&state, &g](A<1>& a) mutable { ++gCalls; ++state; g = {1, 1, a.v}; }, [&](auto&& a) { ++gCalls; g = {-1, 0, a.v}; }}, v);
    // the generic overload takes a modifiable reference: better than the constant one
    if (held == 0) { if (g == Got{-1, 0, x}) g = {0, 2, x}; else g = {-9, -9, -9}; }
    Rec("visit").num("cat", 0).raw("overloads", "[[0,2],[1,1]]").num("held", held).num("value", x).num("calls", gCalls).nums("got", g).emit();
    gCalls = 0;
    auto ov = Overloaded{[](const A<0>& a) -> Got { ++gCalls; return {0, 2, a.v}; }, [](const A<2>& a) -> Got { ++gCalls; return {2, 2, a.v}; }, [](const A<1>& a) -> Got { ++gCalls; return {1, 2, a.v}; }};
    auto ov2 = ov;
    g = std::visit(ov2, v);
    Rec("visit").num("cat", 0).raw("overloads", "[[0,2],[1,2],[2,2]]").num("held", held).num("value", x).num("calls", gCalls).nums("got", g).emit();
    for (int h2 = 0; h2 < 3; ++h2) {
      V w = h2 == 0 ? V(A<0>{x}) : h2 == 1 ? V(A<1>{x}) : V(A<2>{x});
      gCalls = 0;
      std::vector<int> got = std::visit(Overloaded{[](const A<0>&, const A<1>&) { ++gCalls; return std::vector<int>{0, 1}; }, [](const A<1>&, const A<0>&) { ++gCalls; return std::vector<int>{1, 0}; },
                                    [](const A<2>&, const A<2>&) { ++gCalls; return std::vector<int>{2, 2}; }, [](const auto&, const auto&) { ++gCalls; return std::vector<int>{-1, -1}; }}, v, w);
      Rec("visit2").raw("pairs", "[[0,1],[1,0],[2,2]]").raw("held", "[" + std::to_string(held) + "," + std::to_string(h2) + "]").num("calls", gCalls).nums("got", got).emit();
    }
  }
}
// type terms
struct Derived : std::variant<int, long> { using std::variant<int, long>::variant; };
template<class... T> struct variant {};
template<class T> std::string Term();
template<class... T> std::string Terms() { std::string s; ((s += (s.empty() ? "" : ",") + Term<T>()), ...); return "[" + s + "]"; }
template<class T> struct TermOf { static std::string go() { return "{\"k\":\"?\",\"args\":[]}"; } };
#define VF_TERM(T, n) template<> struct TermOf<T> { static std::string go() { return "{\"k\":\"" n "\",\"args\":[]}"; } };
VF_TERM(int, "int") VF_TERM(long, "long") VF_TERM(std::string, "string") VF_TERM(Derived, "derived") VF_TERM(std::monostate, "monostate") VF_TERM(void, "void") VF_TERM(unsigned, "unsigned")
template<class... T> struct TermOf<std::variant<T...>> { static std::string go() { return "{\"k\":\"variant\",\"args\":" + Terms<T...>() + "}"; } };
template<class... T> struct TermOf<::variant<T...>> { static std::string go() { return "{\"k\":\"othervariant\",\"args\":" + Terms<T...>() + "}"; } };
template<class... T> struct TermOf<std::tuple<T...>> { static std::string go() { return "{\"k\":\"tuple\",\"args\":" + Terms<T...>() + "}"; } };
template<class T> struct TermOf<std::optional<T>> { static std::string go() { return "{\"k\":\"optional\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<const T> { static std::string go() { return "{\"k\":\"const\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<volatile T> { static std::string go() { return "{\"k\":\"volatile\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<T&> { static std::string go() { return "{\"k\":\"ref\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<T&&> { static std::string go() { return "{\"k\":\"rref\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<T*> { static std::string go() { return "{\"k\":\"ptr\",\"args\":" + Terms<T>() + "}"; } };
template<class T> struct TermOf<T[3]> { static std::string go() { return "{\"k\":\"array\",\"args\":" + Terms<T>() + "}"; } };
template<class T> std::string Term() { return TermOf<T>::go(); }
template<class T> void IsVar() { Rec("isvariant").raw("t", Term<T>()).boolean("b", mbo::types::IsVariant<T>).emit(); }
template<class V, class T> void Mem() { Rec("member").raw("v", Term<V>()).raw("t", Term<T>()).boolean("b", mbo::types::IsVariantMemberType<V, T>).emit(); }
template<class T> void Wraps() {
  IsVar<T>(); IsVar<const T>(); IsVar<volatile T>(); IsVar<T&>(); IsVar<const T&>(); IsVar<T&&>(); IsVar<T*>(); IsVar<T* const>(); IsVar<T[3]>();
  IsVar<std::tuple<T>>(); IsVar<::variant<T>>(); IsVar<std::optional<T>>(); IsVar<std::variant<T>>(); IsVar<std::variant<T, T>>(); IsVar<std::variant<std::tuple<T>, int>>(); IsVar<const std::variant<T>>(); IsVar<std::variant<T>&>();
}
template<class V> void Members() {
  Mem<V, int>(); Mem<V, const int>(); Mem<V, long>(); Mem<V, unsigned>(); Mem<V, std::string>(); Mem<V, int*>(); Mem<V, const int*>(); Mem<V, V>(); Mem<V, std::variant<int>>(); Mem<V, std::variant<int, long>>();
  Mem<V, Derived>(); Mem<V, std::monostate>(); Mem<V, std::tuple<int>>(); Mem<V, int&>(); Mem<V, void>(); Mem<V, std::tuple<>>(); Mem<V, std::optional<int>>(); Mem<V, volatile int>();
}
int main() {
  [&]<int... M>(std::integer_sequence<int, M...>) { (Two<M>(), ...); }(std::make_integer_sequence<int, 64>());
  [&]<int... M>(std::integer_sequence<int, M...>) { (Five<M>(), ...); }(std::make_integer_sequence<int, 32>());
  Lambdas();
  Wraps<int>(); Wraps<std::string>(); Wraps<Derived>(); Wraps<std::variant<int>>(); Wraps<std::variant<int, std::string>>(); Wraps<::variant<int>>(); Wraps<std::tuple<>>(); Wraps<std::variant<std::variant<int>, long>>(); Wraps<std::monostate>();
  IsVar<std::variant<>>(); IsVar<void>(); IsVar<std::variant<int, int, int, int, int, int, int, int>>();
  Members<std::variant<int>>(); Members<std::variant<long>>(); Members<std::variant<int, long>>(); Members<std::variant<long, int>>(); Members<std::variant<std::string, long, int>>();
  Members<std::variant<const int, long>>(); Members<std::variant<std::variant<int>, std::string>>(); Members<std::variant<int*, unsigned, std::tuple<int>>>(); Members<std::variant<const int*, std::variant<int, long>>>();
  Members<std::variant<std::monostate, std::optional<int>, int, int>>(); Members<std::variant<Derived, std::tuple<>, volatile int>>(); Members<std::variant<long, long, long, long, long, int>>();
}
