// Inputs shared by the scenarios.
#ifndef VERIF_UTIL_H_
#define VERIF_UTIL_H_
#include <algorithm>
#include <array>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
#include "sim.h"

namespace vu {
template <typename F, typename = void>
struct IsPrime : std::false_type {};
template <typename F>
struct IsPrime<F, std::void_t<decltype(F::Config::kModulus)>> : std::true_type {};

// Uniform element of a prime or extension field, drawn from the run's input seed.
template <typename F>
F Uni() {
  if constexpr (IsPrime<F>::value) {
    if constexpr (std::is_integral_v<std::decay_t<decltype(F::Config::kModulus)>>) {
      return F((uint32_t)sim::Below(F::Config::kModulus));
    } else {
      auto b = F::Config::kModulus;
      constexpr size_t n = sizeof(b.limbs) / 8;
      size_t top = F::kModulusBits - 64 * (n - 1);
      do {
        for (size_t i = 0; i < n; ++i) b.limbs[i] = sim::Rand();
        if (top < 64) b.limbs[n - 1] &= ((uint64_t)1 << top) - 1;
      } while (!(b < F::Config::kModulus));
      return F::FromBigInt(b);
    }
  } else {
    using B = typename F::BasePrimeField;
    constexpr size_t n = F::ExtensionDegree();
    std::array<B, n> v;
    for (size_t i = 0; i < n; ++i) v[i] = Uni<B>();
    return F::FromBasePrimeFields(v);
  }
}
template <typename F>
F Elem() {  // edge values are likely
  switch (sim::Below(10)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return F::Zero() - F::One();
    case 3: { F f = F::Zero(); for (uint64_t k = sim::Below(20); k; --k) f += F::One(); return f; }
    default: return Uni<F>();
  }
}
template <typename F>
F NonZero() {
  for (;;) {
    F f = Elem<F>();
    if (!f.IsZero()) return f;
  }
}
// Naive power by repeated multiplication (small exponents).
template <typename F>
F NaivePow(const F& b, size_t e) {
  F r = F::One();
  for (size_t i = 0; i < e; ++i) r = r * b;
  return r;
}
// Sizes around chunk and table boundaries.
inline size_t Size(size_t max) {
  size_t lg = 0;
  while (((size_t)2 << lg) <= max) ++lg;
  size_t s;
  switch (sim::Below(8)) {
    case 0: s = sim::Below(4); break;
    case 1: s = sim::Range(1, 17); break;
    case 2: s = (size_t)1 << sim::Range(0, lg); break;
    case 3: s = ((size_t)1 << sim::Range(1, lg)) + 1; break;
    case 4: s = ((size_t)1 << sim::Range(1, lg)) - 1; break;
    case 5: s = sim::Range(0, max); break;
    default: s = sim::Range(0, std::min<size_t>(max, 80)); break;
  }
  return std::min(s, max);
}
template <typename F>
std::vector<F> Vec(size_t n) {
  std::vector<F> v(n);
  int style = (int)sim::Below(4);  // mixed, uniform, all zero but a few, non-zero
  for (auto& x : v)
    x = style == 0 ? Elem<F>() : style == 1 ? Uni<F>() : style == 2 ? (sim::Chance(1, 8) ? Elem<F>() : F::Zero()) : NonZero<F>();
  return v;
}
template <typename V>
void OutcomeVec(const V& v) {
  size_t n = std::size(v);
  sim::OutcomeVal(n);
  if (n) sim::Outcome(std::data(v), n * sizeof(*std::data(v)));
}
template <typename A, typename B>
void Same(const A& got, const B& want, const char* what) {
  SIM_CHECK(std::size(got) == std::size(want), "%s: %zu elements instead of %zu", what, (size_t)std::size(got), (size_t)std::size(want));
  for (size_t i = 0; i < std::size(got); ++i) SIM_CHECK(got[i] == want[i], "%s: wrong at position %zu of %zu", what, i, (size_t)std::size(got));
}
}  // namespace vu
#endif
