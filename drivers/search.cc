// Template searches and case selection, instantiated over every small predicate.
#include "mbo/types/cases.h"
#include "mbo/types/template_search.h"
#include "trace.h"
#include <utility>
using namespace mbo::types;
using vf::Rec;
#ifndef VF_N
# define VF_N 5
#endif
template<unsigned Mask> struct P {
  template<std::size_t I> struct Pred { static constexpr bool value = I < 32 ? (Mask >> (I % 32)) & 1 : false; };
};
static std::string g_rows;
template<unsigned M, std::size_t S, std::size_t E> void One() {
  auto n = [](std::size_t v) { return std::to_string(v); };
  g_rows += (g_rows.empty() ? "" : ",") + std::string("[") + n(S) + "," + n(E) + "," +
    n(LinearSearchV<P<M>::template Pred, S, E, 99>) + "," + n(LinearSearchV<P<M>::template Pred, S, E>) + "," +
    n(ReverseSearchV<P<M>::template Pred, S, E, 99>) + "," + n(ReverseSearchV<P<M>::template Pred, S, E>) + "," +
    n(MaxSearchV<P<M>::template Pred, S, E, 99>) + "," + n(MaxSearchV<P<M>::template Pred, S, E>) + "," +
    n(BinarySearchV<P<M>::template Pred, S, E, 99>) + "," + n(BinarySearchV<P<M>::template Pred, S, E>) + "]";
}
template<unsigned M, std::size_t S, std::size_t... E> void Ends(std::index_sequence<E...>) { (One<M, S, E>(), ...); }
template<unsigned M, std::size_t... S> void Starts(std::index_sequence<S...>) { (Ends<M, S>(std::make_index_sequence<VF_N + 1>{}), ...); }
template<unsigned M> void ForMask() {
  g_rows.clear();
  Starts<M>(std::make_index_sequence<VF_N + 1>{});
  Rec("search").num("mask", M).raw("rows", "[" + g_rows + "]").emit();
}
template<unsigned... M> void Masks(std::integer_sequence<unsigned, M...>) { (ForMask<M>(), ...); }
// long ranges, threshold predicates
template<std::size_t T> struct Th { template<std::size_t I> struct Lt { static constexpr bool value = I < T; }; template<std::size_t I> struct Eq { static constexpr bool value = I == T; }; };
template<std::size_t T, std::size_t S, std::size_t E> void Long() {
  Rec("long").num("t", T).num("s", S).num("e", E).num("bin", BinarySearchV<Th<T>::template Lt, S, E, 999>).num("max", MaxSearchV<Th<T>::template Lt, S, E, 999>).num("lin", LinearSearchV<Th<T>::template Eq, S, E, 999>).num("rev", ReverseSearchV<Th<T>::template Eq, S, E, 999>).num("revlt", ReverseSearchV<Th<T>::template Lt, S, E, 999>).emit();
}
template<std::size_t... T> void Longs(std::index_sequence<T...>) { (Long<T, 0, 33>(), ...); (Long<T, 3, 20>(), ...); (Long<T * 5, 7, 130>(), ...); }

template<std::size_t I> struct Tag { static constexpr int index = (int)I; };
template<typename T> constexpr int TagOf() { if constexpr (std::is_void_v<T>) return 0; else return T::index; }
template<unsigned M, std::size_t... I> void CaseRow(std::index_sequence<I...>) {
  constexpr std::size_t N = sizeof...(I);
  Rec("case").num("n", N).nums("conds", std::vector<int>{int((M >> I) & 1)...})
      .num("idx", CaseIndex<bool((M >> I) & 1)...>)
      .num("type", TagOf<Cases<IfThen<bool((M >> I) & 1), Tag<I + 1>>...>>())
      .num("withelse", TagOf<Cases<IfThen<bool((M >> I) & 1), Tag<I + 1>>..., IfElse<Tag<77>>>>())
      .num("elselast", TagOf<Cases<IfThen<bool((M >> I) & 1), Tag<I + 1>>..., IfElse<Tag<77>>, IfThen<true, Tag<78>>>>())
      .num("skip", TagOf<Cases<IfFalseThenVoid, IfThen<bool((M >> I) & 1), Tag<I + 1>>..., IfTrueThenVoid, IfThen<true, Tag<78>>>>()).emit();
}
template<std::size_t N, unsigned... M> void CaseN(std::integer_sequence<unsigned, M...>) { (CaseRow<M>(std::make_index_sequence<N>{}), ...); }
int main() {
  Masks(std::make_integer_sequence<unsigned, 1u << VF_N>{});
  Longs(std::make_index_sequence<36>{});
  CaseN<1>(std::make_integer_sequence<unsigned, 2>{});
  CaseN<2>(std::make_integer_sequence<unsigned, 4>{});
  CaseN<3>(std::make_integer_sequence<unsigned, 8>{});
  CaseN<4>(std::make_integer_sequence<unsigned, 16>{});
  CaseN<5>(std::make_integer_sequence<unsigned, 32>{});
  CaseN<6>(std::make_integer_sequence<unsigned, 64>{});
  CaseN<7>(std::make_integer_sequence<unsigned, 128>{});
  Rec("case0").num("idx", CaseIndex<>).num("type", TagOf<Cases<>>()).emit();
}
