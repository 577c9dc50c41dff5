// C02: batch field operations equal the element-wise operation.
#include "util.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/test/gf7.h"

using namespace tachyon;
using namespace tachyon::math;
using Fr = bn254::Fr;

SIM_WARMUP(fields) {
  Fr::Init();
  BabyBear::Init();
  BabyBear4::Init();
  GF7::Init();
}

namespace {
template <typename F>
void BatchInverseCase(size_t max) {
  size_t n = vu::Size(max);
  std::vector<F> v = vu::Vec<F>(n);
  if (n && sim::Chance(1, 4)) { v[0] = F::Zero(); }
  if (n && sim::Chance(1, 4)) { v[n - 1] = F::Zero(); }
  F coeff = sim::Chance(1, 2) ? F::One() : vu::Elem<F>();
  bool with = sim::Chance(2, 3);
  if (!with) coeff = F::One();
  int form = (int)sim::Below(4);
  sim::Describe("batch inverse form=%d n=%zu coeff=%d limbs=%zu", form, n, with, sizeof(F));
  std::vector<F> want(n);
  for (size_t i = 0; i < n; ++i) {
    if (v[i].IsZero()) { want[i] = F::Zero(); continue; }
    auto inv = v[i].Inverse();
    SIM_CHECK(inv.has_value(), "single inverse refused");
    SIM_CHECK((*inv * v[i]) == F::One(), "single inverse is wrong");
    want[i] = *inv * coeff;
  }
  std::vector<F> got(n + 2, F::One()), in = v;
  bool ok = false;
  if (form == 0) { ok = with ? F::BatchInverseInPlace(v, coeff) : F::BatchInverseInPlace(v); }
  else if (form == 1) { ok = F::BatchInverseInPlaceSerial(v, coeff); }
  else {
    absl::Span<F> out = absl::MakeSpan(got).subspan(1, n);
    ok = form == 2 ? F::BatchInverse(in, &out, coeff) : F::BatchInverseSerial(in, &out, coeff);
    v.assign(out.begin(), out.end());
    SIM_CHECK(got[0] == F::One() && got[n + 1] == F::One(), "wrote outside the output");
  }
  SIM_CHECK(ok, "batch inverse failed");
  vu::Same(v, want, "batch inverse");
  if (form >= 2) {
    std::vector<F> bad(n + 1);
    SIM_CHECK(!F::BatchInverse(in, &bad), "mismatched sizes accepted");
    vu::OutcomeVec(v);
  } else {
    vu::OutcomeVec(v);
  }
}
template <typename F>
void PowersCase(size_t max) {
  size_t n = vu::Size(max);
  F g = vu::Elem<F>(), c = vu::Elem<F>();
  int form = (int)sim::Below(3);
  if (form) { size_t p = 1; while (p * 2 <= n) p *= 2; n = p; }
  bool with = sim::Chance(2, 3);
  if (!with) c = F::One();
  sim::Describe("powers form=%d n=%zu c=%d limbs=%zu", form, n, with, sizeof(F));
  std::vector<F> want(n), got;
  F cur = c;
  for (size_t i = 0; i < n; ++i) { want[i] = cur; cur = cur * g; }
  if (form) {
    std::vector<F> w(n);
    size_t lg = 0;
    while (((size_t)1 << lg) < n) ++lg;
    for (size_t i = 0; i < n; ++i) {
      size_t r = 0;
      for (size_t b = 0; b < lg; ++b) if (i >> b & 1) r |= (size_t)1 << (lg - 1 - b);
      w[r] = want[i];
    }
    want = w;
  }
  if (form == 0) got = with ? F::GetSuccessivePowers(n, g, c) : F::GetSuccessivePowers(n, g);
  else if (form == 1) got = F::GetBitRevIndexSuccessivePowers(n, g, c);
  else got = F::GetBitRevIndexSuccessivePowersSerial(n, g, c);
  vu::Same(got, want, "successive powers");
  vu::OutcomeVec(got);
}
template <typename F>
void ProductsCase(size_t max) {
  size_t n = vu::Size(max);
  std::vector<F> a = vu::Vec<F>(n), b = vu::Vec<F>(n);
  int form = (int)sim::Below(5);
  sim::Describe("products form=%d n=%zu limbs=%zu", form, n, sizeof(F));
  F r = vu::Elem<F>();
  F want = F::Zero(), got = F::Zero();
  if (form < 2) {
    for (size_t i = 0; i < n; ++i) want = want + a[i] * b[i];
    got = form == 0 ? F::SumOfProducts(a, b) : F::SumOfProductsSerial(a, b);
  } else if (form == 2) {  // forward: a0 r^(n-1) + ... + a(n-1)
    for (size_t i = 0; i < n; ++i) want = want * r + a[i];
    if (n && sim::Chance(1, 2)) { std::vector<F> t = a; got = F::template LinearCombinationInPlace<true>(t, r); }
    else got = F::template LinearCombination<true>(a, r);
  } else if (form == 3) {
    F p = F::One();
    for (size_t i = 0; i < n; ++i) { want = want + a[i] * p; p = p * r; }
    if (n && sim::Chance(1, 2)) { std::vector<F> t = a; got = F::template LinearCombinationInPlace<false>(t, r); }
    else got = F::template LinearCombination<false>(a, r);
  } else {
    size_t k = std::min<size_t>(n, 200);
    std::vector<F> m = F::GetSuccessiveScalarMuls(k, r);
    SIM_CHECK(m.size() == k, "scalar multiples: wrong size");
    F s = F::Zero();
    for (size_t i = 0; i < k; ++i) { SIM_CHECK(m[i] == s, "scalar multiple %zu is wrong", i); s = s + r; }
  }
  SIM_CHECK(got == want, "result differs from the term-by-term one (n=%zu)", n);
}
template <typename F>
void ScalarVecCase(size_t max) {
  size_t n = vu::Size(max), form = sim::Below(4);
  std::vector<F> a = vu::Vec<F>(n), out(n);
  std::vector<BigInt<1>> e(n);
  for (auto& x : e) x = BigInt<1>(sim::Chance(1, 4) ? sim::Below(4) : sim::Below(1 << 16));
  F s = vu::Elem<F>();
  sim::Describe("scalar muls form=%zu n=%zu limbs=%zu", form, n, sizeof(F));
  auto naive = [](const F& b, uint64_t k) { F r = F::Zero(), d = b; for (; k; k >>= 1) { if (k & 1) r = r + d; d = d + d; } return r; };
  bool ok;
  if (form == 0) ok = F::MultiScalarMul(e, a, &out);
  else if (form == 1) ok = F::MultiScalarMul(e, s, &out);
  else if (form == 2) ok = F::MultiScalarMul(n ? e[0] : BigInt<1>(3), a, &out);
  else {
    std::vector<F> bad(n + 1);
    SIM_CHECK(!F::MultiScalarMul(e, a, &bad) && !F::MultiScalarMul(e, s, &bad) && !F::MultiScalarMul(BigInt<1>(2), a, &bad), "mismatched sizes accepted");
    return;
  }
  SIM_CHECK(ok == (n != 0), "wrong verdict for n=%zu", n);
  for (size_t i = 0; i < n; ++i) {
    F want = form == 0 ? naive(a[i], e[i][0]) : form == 1 ? naive(s, e[i][0]) : naive(a[i], e[0][0]);
    SIM_CHECK(out[i] == want, "scalar multiple %zu of %zu is wrong", i, n);
  }
}
template <typename F>
void RationalCase(size_t max) {
  using R = RationalField<F>;
  size_t n = vu::Size(max);
  std::vector<R> v(n);
  for (auto& x : v) x = R(vu::Elem<F>(), vu::NonZero<F>());
  sim::Describe("fractions n=%zu limbs=%zu", n, sizeof(F));
  std::vector<F> got(n + 2, F::One()), want(n);
  bool with = sim::Chance(1, 3);
  F c = with ? vu::Elem<F>() : F::One();
  for (size_t i = 0; i < n; ++i) want[i] = v[i].numerator() * *v[i].denominator().Inverse() * c;
  absl::Span<F> out = absl::MakeSpan(got).subspan(1, n);
  SIM_CHECK(with ? R::BatchEvaluate(v, &out, c) : R::BatchEvaluate(v, &out), "batch evaluation failed");
  SIM_CHECK(got[0] == F::One() && got[n + 1] == F::One(), "wrote outside the output");
  vu::Same(out, want, "batch evaluation of fractions");
  std::vector<F> bad(n + 1);
  SIM_CHECK(!R::BatchEvaluate(v, &bad), "mismatched sizes accepted");
  vu::OutcomeVec(out);
}
// Fractions themselves are a field: batch inversion of fractions, common coefficient included.
template <typename F>
void RationalInverseCase(size_t max) {
  using R = RationalField<F>;
  size_t n = vu::Size(max);
  std::vector<R> v(n), want(n);
  R c = sim::Chance(1, 2) ? R::One() : R(vu::Elem<F>(), vu::NonZero<F>());
  for (size_t i = 0; i < n; ++i) {
    v[i] = R(vu::Elem<F>(), vu::NonZero<F>());
    want[i] = v[i].IsZero() ? R::Zero() : R(v[i].denominator(), v[i].numerator()) * c;
  }
  sim::Describe("fraction inverses n=%zu limbs=%zu", n, sizeof(F));
  SIM_CHECK(R::BatchInverseInPlace(v, c), "batch inverse failed");
  vu::Same(v, want, "batch inverse of fractions");
}
}  // namespace

SIM_SCENARIO("C02", batch_inverse, sim::kOmp | sim::kSameOutcome, 4, 10) {
  switch (sim::Below(5)) {
    case 0: BatchInverseCase<Fr>(150); break;
    case 1: BatchInverseCase<BabyBear>(600); break;
    case 2: BatchInverseCase<BabyBear4>(200); break;
    case 3: BatchInverseCase<GF7>(300); break;
    default: BatchInverseCase<Fr>(40); break;
  }
}
SIM_SCENARIO("C02", successive_powers, sim::kOmp | sim::kSameOutcome, 3, 10) {
  switch (sim::Below(4)) {
    case 0: PowersCase<Fr>(300); break;
    case 1: PowersCase<BabyBear>(2100); break;
    case 2: PowersCase<BabyBear4>(300); break;
    default: PowersCase<GF7>(600); break;
  }
}
SIM_SCENARIO("C02", inner_products, sim::kOmp, 3, 10) {
  switch (sim::Below(4)) {
    case 0: ProductsCase<Fr>(300); break;
    case 1: ProductsCase<BabyBear>(2100); break;
    case 2: ProductsCase<BabyBear4>(300); break;
    default: ProductsCase<GF7>(600); break;
  }
}
SIM_SCENARIO("C02", scalar_vectors, sim::kOmp, 2, 10) {
  switch (sim::Below(2)) {
    case 0: ScalarVecCase<Fr>(120); break;
    default: ScalarVecCase<BabyBear>(400); break;
  }
}
SIM_SCENARIO("C02", fractions, sim::kOmp | sim::kSameOutcome, 3, 10) {
  switch (sim::Below(3)) {
    case 0: RationalCase<Fr>(150); break;
    case 1: RationalCase<BabyBear>(600); break;
    default: RationalCase<GF7>(300); break;
  }
}
SIM_SCENARIO("C02", fraction_inverses, sim::kOmp, 1, 10) {
  switch (sim::Below(2)) {
    case 0: RationalInverseCase<BabyBear>(300); break;
    default: RationalInverseCase<GF7>(300); break;
  }
}
