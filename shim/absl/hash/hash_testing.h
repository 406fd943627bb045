// Shim: values that are equal must hash equal.
#pragma once
#include "absl/shim_all.h"
#include <initializer_list>
#include <tuple>
namespace absl {
template<typename C> bool VerifyTypeImplementsAbslHashCorrectly(const C& c) {
  for (const auto& a : c) for (const auto& b : c) if (a == b && absl::HashOf(a) != absl::HashOf(b)) return false;
  return true;
}
template<typename T> bool VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> c) {
  for (const auto& a : c) for (const auto& b : c) if (a == b && absl::HashOf(a) != absl::HashOf(b)) return false;
  return true;
}
}  // namespace absl
