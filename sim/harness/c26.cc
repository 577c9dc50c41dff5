// C26: the C interface computes what the library computes.
#include <thread>
#include "fft.h"
#include "tachyon/base/buffer/buffer.h"
#include "tachyon/base/logging.h"
#include "tachyon/c/crypto/random/rng.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq6_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1_point_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2_point_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/msm.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq12_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq2_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq6_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2_point_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/msm.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations_type_traits.h"
#include "tachyon/c/version.h"
#include "tachyon/c/zk/plonk/halo2/bn254_transcript.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/geometry/point_conversions.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"

using namespace tachyon;
using namespace tachyon::math;
namespace h2 = tachyon::zk::plonk::halo2;
using tachyon::c::base::c_cast;
using tachyon::c::base::native_cast;
SIM_WARMUP(everything) {
  tachyon_bn254_g1_init();
  tachyon_bn254_g2_init();
  tachyon_bls12_381_g1_init();
  tachyon_bls12_381_g2_init();
  bn254::BN254Curve::Init();
  bls12_381::BLS12_381Curve::Init();
  BabyBear4::Init();
  static char buffer[4096];
  setvbuf(stdout, buffer, _IOFBF, sizeof(buffer));  // it would be allocated with the first output
  LOG(ERROR) << "warm up";
}
namespace {
using F = bn254::Fr;
// Live blocks of the heap return to what they were when the scope was entered.
struct NoLeak {
  size_t before = sim::HeapLiveBlocks();
  void Check(const char* what) {
    size_t now = sim::HeapLiveBlocks();
    SIM_CHECK(now == before, "%s: %zu blocks are live instead of %zu", what, now, before);
  }
};

// ---- fields -----------------------------------------------------------------
template <typename N>
N Pick(const N* other) {
  if (other && sim::Chance(1, 6)) return *other;
  if (other && sim::Chance(1, 8)) return -*other;
  return vu::Elem<N>();
}
#define FIELD(C, N)                                                                                   \
  void Field_##C() {                                                                                  \
    using CT = tachyon_##C;                                                                           \
    static_assert(sizeof(CT) == sizeof(N));                                                           \
    N x = Pick<N>(nullptr), y = Pick<N>(&x);                                                          \
    bool alias = sim::Chance(1, 8);                                                                   \
    if (alias) y = x;                                                                                 \
    CT a = c_cast(x), bb = c_cast(y);                                                                 \
    const CT& b = alias ? a : bb;                                                                     \
    SIM_CHECK(native_cast(tachyon_##C##_zero()) == N::Zero() && native_cast(tachyon_##C##_zero()).IsZero(), #C " zero"); \
    SIM_CHECK(native_cast(tachyon_##C##_one()) == N::One() && native_cast(tachyon_##C##_one()).IsOne(), #C " one");     \
    SIM_CHECK((native_cast(tachyon_##C##_minus_one()) + N::One()).IsZero(), #C " minus one");         \
    SIM_CHECK(native_cast(tachyon_##C##_add(&a, &b)) == x + y, #C " add");                            \
    SIM_CHECK(native_cast(tachyon_##C##_sub(&a, &b)) == x - y, #C " sub");                            \
    SIM_CHECK(native_cast(tachyon_##C##_sub(&a, &b)) + y == x, #C " sub does not undo add");          \
    SIM_CHECK(native_cast(tachyon_##C##_mul(&a, &b)) == x * y, #C " mul");                            \
    SIM_CHECK(native_cast(tachyon_##C##_neg(&a)) + x == N::Zero(), #C " neg");                        \
    SIM_CHECK(native_cast(tachyon_##C##_dbl(&a)) == x + x, #C " dbl");                                \
    SIM_CHECK(native_cast(tachyon_##C##_sqr(&a)) == x * x, #C " sqr");                                \
    if (!x.IsZero()) SIM_CHECK((native_cast(tachyon_##C##_inv(&a)) * x).IsOne(), #C " inv");          \
    if (!y.IsZero()) SIM_CHECK(native_cast(tachyon_##C##_div(&a, &b)) * y == x, #C " div");           \
    SIM_CHECK(tachyon_##C##_eq(&a, &b) == (x == y), #C " eq");                                        \
    SIM_CHECK(tachyon_##C##_ne(&a, &b) == !(x == y), #C " ne");                                       \
    SIM_CHECK(tachyon_##C##_gt(&a, &b) == (y < x), #C " gt");                                         \
    SIM_CHECK(tachyon_##C##_lt(&a, &b) == (x < y), #C " lt");                                         \
    SIM_CHECK(tachyon_##C##_ge(&a, &b) == !(x < y), #C " ge");                                        \
    SIM_CHECK(tachyon_##C##_le(&a, &b) == !(y < x), #C " le");                                        \
    SIM_CHECK(native_cast(a) == x && native_cast(b) == y, #C ": an operand changed");                 \
    CT r = tachyon_##C##_random(), s = tachyon_##C##_random();                                        \
    SIM_CHECK(tachyon_##C##_ne(&r, &s) || sizeof(CT) < 8, #C ": two random elements are equal");      \
  }
FIELD(bn254_fq, bn254::Fq)
FIELD(bn254_fr, bn254::Fr)
FIELD(bn254_fq2, bn254::Fq2)
FIELD(bn254_fq6, bn254::Fq6)
FIELD(bn254_fq12, bn254::Fq12)
FIELD(bls12_381_fq, bls12_381::Fq)
FIELD(bls12_381_fr, bls12_381::Fr)
FIELD(bls12_381_fq2, bls12_381::Fq2)
FIELD(bls12_381_fq6, bls12_381::Fq6)
FIELD(bls12_381_fq12, bls12_381::Fq12)
FIELD(baby_bear, BabyBear)
FIELD(baby_bear4, BabyBear4)
constexpr void (*kFields[])() = {Field_bn254_fq, Field_bn254_fr, Field_bn254_fq2, Field_bn254_fq6, Field_bn254_fq12, Field_bls12_381_fq,
                                 Field_bls12_381_fr, Field_bls12_381_fq2, Field_bls12_381_fq6, Field_bls12_381_fq12, Field_baby_bear, Field_baby_bear4};

// ---- points -----------------------------------------------------------------
template <typename J, typename S>
J Times(const J& p, const S& s) {  // double and add
  J r = J::Zero();
  auto m = s.ToBigInt();
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (!r.IsZero()) r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r + p;
  }
  return r;
}
template <typename Curve>
AffinePoint<Curve> SmallPoint() {
  using J = JacobianPoint<Curve>;
  J g = J::Generator(), r = J::Zero();
  for (uint64_t k = sim::Below(6); k; --k) r = r + g;
  if (sim::Chance(1, 2)) r = -r;
  return r.ToAffine();
}
// The same point with random coordinates in the representation P.
template <typename P, typename Curve>
P Represent(const AffinePoint<Curve>& a) {
  using B = typename Curve::BaseField;
  if constexpr (std::is_same_v<P, AffinePoint<Curve>>) {
    return a;
  } else {
    if (a.IsZero()) {
      if (sim::Chance(1, 2)) return P::Zero();
      auto q = Represent<P>(AffinePoint<Curve>::Generator());
      return q - q;
    }
    B z = vu::NonZero<B>();
    if constexpr (std::is_same_v<P, ProjectivePoint<Curve>>) return P(a.x() * z, a.y() * z, z);
    else if constexpr (std::is_same_v<P, JacobianPoint<Curve>>) return P(a.x() * z * z, a.y() * z * z * z, z);
    else return P(a.x() * z * z, a.y() * z * z * z, z * z, z * z * z);
  }
}
template <typename P>
auto Aff(const P& p) {
  if constexpr (std::is_same_v<P, AffinePoint<typename P::Curve>>) return p;
  else return p.ToAffine();
}
template <typename P>
void On(const P& p, const char* what) {
  auto a = Aff(p);
  SIM_CHECK(a.IsZero() || P::Curve::IsOnCurve(a), "%s: not on the curve", what);
}
#define POINT_KIND(T, K, P)                                                                           \
  {                                                                                                   \
    using N = P;                                                                                      \
    using CT = tachyon_##T##_##K;                                                                     \
    static_assert(sizeof(CT) == sizeof(N));                                                           \
    N x = Represent<N>(pa), y = Represent<N>(pb);                                                     \
    CT a = c_cast(x), bb = c_cast(y);                                                                 \
    const CT& b = alias ? a : bb;                                                                     \
    SIM_CHECK(native_cast(tachyon_##T##_##K##_zero()).IsZero(), #T "_" #K " zero");                   \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_generator())) == A::Generator(), #T "_" #K " generator"); \
    On(native_cast(tachyon_##T##_##K##_random()), #T "_" #K " random");                               \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_add(&a, &b))) == sum, #T "_" #K " add");            \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_sub(&a, &b))) == dif, #T "_" #K " sub");            \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_neg(&a))) == -pa, #T "_" #K " neg");                \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_dbl(&a))) == dbl, #T "_" #K " dbl");                \
    SIM_CHECK(tachyon_##T##_##K##_eq(&a, &b) == (pa == pb), #T "_" #K " eq");                         \
    SIM_CHECK(tachyon_##T##_##K##_ne(&a, &b) == (pa != pb), #T "_" #K " ne");                         \
    SIM_CHECK(Aff(native_cast(a)) == pa && Aff(native_cast(b)) == pb, #T "_" #K ": an operand changed"); \
  }
#define POINT_MIXED(T, K, P)                                                                          \
  {                                                                                                   \
    using N = P;                                                                                      \
    N x = Represent<N>(pa);                                                                           \
    tachyon_##T##_##K a = c_cast(x);                                                                  \
    tachyon_##T##_affine b = c_cast(pb);                                                              \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_add_mixed(&a, &b))) == sum, #T "_" #K " add_mixed"); \
    SIM_CHECK(Aff(native_cast(tachyon_##T##_##K##_sub_mixed(&a, &b))) == dif, #T "_" #K " sub_mixed"); \
  }
#define POINT(T, CURVE)                                                                               \
  void Point_##T() {                                                                                  \
    using A = AffinePoint<CURVE>;                                                                     \
    using J = JacobianPoint<CURVE>;                                                                   \
    A pa = SmallPoint<CURVE>(), pb = SmallPoint<CURVE>();                                             \
    bool alias = sim::Chance(1, 6);                                                                   \
    if (alias) pb = pa;                                                                               \
    A sum = (J::FromAffine(pa) + J::FromAffine(pb)).ToAffine(), dif = (J::FromAffine(pa) + J::FromAffine(-pb)).ToAffine(); \
    A dbl = (J::FromAffine(pa) + J::FromAffine(pa)).ToAffine();                                       \
    POINT_KIND(T, affine, AffinePoint<CURVE>)                                                         \
    POINT_KIND(T, projective, ProjectivePoint<CURVE>)                                                 \
    POINT_KIND(T, jacobian, JacobianPoint<CURVE>)                                                     \
    POINT_KIND(T, xyzz, PointXYZZ<CURVE>)                                                             \
    POINT_MIXED(T, projective, ProjectivePoint<CURVE>)                                                \
    POINT_MIXED(T, jacobian, JacobianPoint<CURVE>)                                                    \
    POINT_MIXED(T, xyzz, PointXYZZ<CURVE>)                                                            \
  }
POINT(bn254_g1, bn254::G1Curve)
POINT(bn254_g2, bn254::G2Curve)
POINT(bls12_381_g1, bls12_381::G1Curve)
POINT(bls12_381_g2, bls12_381::G2Curve)
constexpr void (*kPoints[])() = {Point_bn254_g1, Point_bn254_g2, Point_bls12_381_g1, Point_bls12_381_g2};

// ---- multi-scalar multiplication ----------------------------------------------
#define MSM(T, CURVE)                                                                                 \
  void Msm_##T(size_t max, bool alone = true) {                                                       \
    using A = AffinePoint<CURVE>;                                                                     \
    using J = JacobianPoint<CURVE>;                                                                   \
    using S = CURVE::ScalarField;                                                                     \
    using B = CURVE::BaseField;                                                                       \
    size_t calls = sim::Range(1, 3);                                                                  \
    NoLeak leak;                                                                                      \
    {                                                                                                 \
      auto* msm = tachyon_##T##_g1_create_msm((uint8_t)sim::Below(30));                               \
      for (size_t call = 0; call < calls; ++call) {                                                   \
        size_t n = vu::Size(max);                                                                     \
        std::vector<A> bases(n);                                                                      \
        std::vector<S> scalars(n);                                                                    \
        for (auto& p : bases) p = SmallPoint<CURVE>();                                                \
        for (auto& s : scalars) s = sim::Chance(1, 2) ? vu::Elem<S>() : S((uint32_t)sim::Below(70000)); \
        J want = J::Zero();                                                                           \
        for (size_t i = 0; i < n; ++i) want = want + Times(J::FromAffine(bases[i]), scalars[i]);      \
        tachyon_##T##_g1_jacobian* got;                                                               \
        if (sim::Chance(1, 2)) {                                                                      \
          got = tachyon_##T##_g1_affine_msm(msm, c_cast(bases.data()), c_cast(scalars.data()), n);    \
        } else {                                                                                      \
          std::vector<Point2<B>> pts(n);                                                              \
          for (size_t i = 0; i < n; ++i) pts[i] = Point2<B>(bases[i].x(), bases[i].y());              \
          got = tachyon_##T##_g1_point2_msm(msm, c_cast(pts.data()), c_cast(scalars.data()), n);      \
        }                                                                                             \
        SIM_CHECK(got != nullptr, #T ": no result for %zu terms", n);                                 \
        SIM_CHECK(native_cast(*got).ToAffine() == want.ToAffine(), #T ": wrong sum of %zu terms", n); \
        delete got;                                                                                   \
      }                                                                                               \
      tachyon_##T##_g1_destroy_msm(msm);                                                              \
    }                                                                                                 \
    if (alone) leak.Check(#T " msm");                                                                 \
  }
MSM(bn254, bn254::G1Curve)
MSM(bls12_381, bls12_381::G1Curve)

// ---- polynomials --------------------------------------------------------------
using Domain = UnivariateEvaluationDomain<F, c::math::kMaxDegree>;
using Evals = UnivariateEvaluations<F, c::math::kMaxDegree>;
using Poly = UnivariateDensePolynomial<F, c::math::kMaxDegree>;
using CDomain = tachyon_bn254_univariate_evaluation_domain;
using CEvals = tachyon_bn254_univariate_evaluations;
using CPoly = tachyon_bn254_univariate_dense_polynomial;
using CRational = tachyon_bn254_univariate_rational_evaluations;
void SameCoeffs(const Poly& p, const std::vector<F>& want, const char* what) {
  size_t n = p.NumElements();
  for (size_t i = 0; i < std::max(n, want.size()); ++i) {
    F g = i < n ? p[i] : F::Zero(), w = i < want.size() ? want[i] : F::Zero();
    SIM_CHECK(g == w, "%s: coefficient %zu is wrong", what, i);
  }
}
// One caller's use of a domain that others may share: values put in element by
// element, transformed back and forth, by copy and in place, and cloned.
void Transforms(const CDomain* domain, size_t size, const F& gen, const std::vector<F>& values) {
  CEvals* evals = tachyon_bn254_univariate_evaluation_domain_empty_evals(domain);
  SIM_CHECK(tachyon_bn254_univariate_evaluations_len(evals) == size, "empty evaluations have %zu elements instead of %zu", tachyon_bn254_univariate_evaluations_len(evals), size);
  for (size_t i = 0; i < size; ++i) SIM_CHECK(native_cast(*evals)[i].IsZero(), "empty evaluations are not zero");
  for (size_t i = size; i-- > 0;) tachyon_bn254_univariate_evaluations_set_value(evals, i, c_cast(&values[i]));
  CEvals* copy = tachyon_bn254_univariate_evaluations_clone(evals);
  CPoly* poly = tachyon_bn254_univariate_evaluation_domain_ifft(domain, evals);
  for (size_t i = 0; i < size; ++i) SIM_CHECK(native_cast(*evals)[i] == values[i], "the source of a transform changed at %zu", i);
  const Poly& p = native_cast(*poly);
  std::vector<F> coeffs(p.NumElements());
  for (size_t i = 0; i < coeffs.size(); ++i) coeffs[i] = p[i];
  SIM_CHECK(coeffs.size() <= size, "too many coefficients");
  F x = F::One();
  for (size_t i = 0; i < size; ++i, x *= gen) SIM_CHECK(fft::Horner(coeffs, x) == values[i], "the polynomial is wrong at position %zu of %zu", i, size);
  CPoly* poly2 = tachyon_bn254_univariate_evaluation_domain_ifft_inplace(domain, copy);
  SameCoeffs(native_cast(*poly2), coeffs, "ifft_inplace");
  CPoly* poly3 = tachyon_bn254_univariate_dense_polynomial_clone(poly);
  tachyon_bn254_univariate_dense_polynomial_destroy(poly);
  SameCoeffs(native_cast(*poly3), coeffs, "a clone");
  auto same = [&](const CEvals* e, const char* what) {
    size_t n = tachyon_bn254_univariate_evaluations_len(e);
    SIM_CHECK(n == size || n == 0, "%s has %zu elements instead of %zu", what, n, size);
    for (size_t i = 0; i < size; ++i) SIM_CHECK((n ? native_cast(*e)[i] : F::Zero()) == values[i], "%s is wrong at %zu", what, i);
  };
  CEvals* back = tachyon_bn254_univariate_evaluation_domain_fft(domain, poly3);
  SameCoeffs(native_cast(*poly3), coeffs, "the source of fft");
  CEvals* back2 = tachyon_bn254_univariate_evaluation_domain_fft_inplace(domain, poly2);
  same(back, "fft");
  same(back2, "fft_inplace");
  tachyon_bn254_univariate_dense_polynomial_destroy(poly2);
  tachyon_bn254_univariate_dense_polynomial_destroy(poly3);
  tachyon_bn254_univariate_evaluations_destroy(copy);
  tachyon_bn254_univariate_evaluations_destroy(evals);
  tachyon_bn254_univariate_evaluations_destroy(back2);
  same(back, "fft");
  tachyon_bn254_univariate_evaluations_destroy(back);
}
size_t Pow2(size_t n) {
  size_t r = 1;
  while (r < n) r *= 2;
  return r;
}

// ---- transcripts --------------------------------------------------------------
using G = bn254::G1AffinePoint;
template <typename W>
constexpr bool kIsPoseidon = std::is_same_v<W, h2::PoseidonWriter<G>> || std::is_same_v<W, h2::SnarkVerifierPoseidonWriter<G>>;
template <typename W>
void Transcript(uint8_t type) {
  auto* w = tachyon_halo2_bn254_transcript_writer_create(type);
  auto native = std::make_unique<W>(base::Uint8VectorBuffer());
  for (size_t step = 0, n = sim::Range(1, 12); step < n; ++step) {
    switch (sim::Below(4)) {
      case 0:
      case 1: {
        if constexpr (kIsPoseidon<W>) {
          auto v = vu::Vec<F>(sim::Below(5));
          tachyon_halo2_bn254_transcript_writer_update(w, reinterpret_cast<const uint8_t*>(v.data()), v.size() * sizeof(F));
          native->Update(v.data(), v.size());
        } else {
          std::vector<uint8_t> v(sim::Chance(1, 4) ? sim::Below(300) : sim::Below(40));
          for (auto& b : v) b = (uint8_t)sim::Rand();
          tachyon_halo2_bn254_transcript_writer_update(w, v.data(), v.size());
          native->Update(v.data(), v.size());
        }
        break;
      }
      case 2: {
        if constexpr (kIsPoseidon<W>) {
          tachyon_bn254_fr got = tachyon_halo2_bn254_transcript_writer_squeeze(w);
          SIM_CHECK(native_cast(got) == native->Squeeze(), "transcript %d squeezes another value", type);
        } else {
          size_t len = 1;
          tachyon_halo2_bn254_transcript_writer_finalize(w, nullptr, &len);
          size_t want_len = std::is_same_v<W, h2::Sha256Writer<G>> ? 32 : 64;
          SIM_CHECK(len == want_len, "transcript %d: digests of %zu bytes", type, len);
          std::vector<uint8_t> got(len + 8, 0xa5);
          tachyon_halo2_bn254_transcript_writer_finalize(w, got.data(), &len);
          SIM_CHECK(len == want_len, "transcript %d: digests of %zu bytes", type, len);
          uint8_t want[64];
          if constexpr (std::is_same_v<W, h2::Sha256Writer<G>>) { uint8_t(&r)[32] = *reinterpret_cast<uint8_t(*)[32]>(want); native->Finalize(r); }
          else if constexpr (!kIsPoseidon<W>) native->Finalize(want);
          SIM_CHECK(!memcmp(got.data(), want, len), "transcript %d: another digest", type);
          for (size_t i = len; i < got.size(); ++i) SIM_CHECK(got[i] == 0xa5, "transcript %d writes past the digest", type);
        }
        break;
      }
      default: {  // through its saved state, into another writer
        size_t len = 0;
        tachyon_halo2_bn254_transcript_writer_get_state(w, nullptr, &len);
        auto want = native->GetState();
        SIM_CHECK(len == want.size(), "transcript %d: a state of %zu bytes instead of %zu", type, len, want.size());
        std::vector<uint8_t> state(len + 8, 0x5a);
        tachyon_halo2_bn254_transcript_writer_get_state(w, state.data(), &len);
        SIM_CHECK(len == want.size() && !memcmp(state.data(), want.data(), len), "transcript %d: another state", type);
        for (size_t i = len; i < state.size(); ++i) SIM_CHECK(state[i] == 0x5a, "transcript %d writes past its state", type);
        auto* v = tachyon_halo2_bn254_transcript_writer_create_from_state(type, state.data(), len);
        std::fill(state.begin(), state.end(), 0);
        if (sim::Chance(1, 2)) std::swap(v, w);
        tachyon_halo2_bn254_transcript_writer_destroy(v);
        break;
      }
    }
  }
  tachyon_halo2_bn254_transcript_writer_destroy(w);
}

// ---- random generators --------------------------------------------------------
template <typename R>
void Generator(uint8_t type) {
  std::vector<uint8_t> seed(R::kSeedSize);
  for (auto& b : seed) b = (uint8_t)sim::Rand();
  if (sim::Chance(1, 10)) std::fill(seed.begin(), seed.end(), 0);
  tachyon_rng* rng = tachyon_rng_create_from_seed(type, seed.data(), seed.size());
  R native;
  SIM_REQUIRE(native.SetSeed(seed));
  for (size_t i = 0, n = sim::Range(1, 60); i < n; ++i) {
    switch (sim::Below(7)) {
      case 0: case 1: case 2: SIM_CHECK(tachyon_rng_get_next_u32(rng) == native.NextUint32(), "generator %d: another u32 at step %zu", type, i); break;
      case 3: case 4: case 5: SIM_CHECK(tachyon_rng_get_next_u64(rng) == native.NextUint64(), "generator %d: another u64 at step %zu", type, i); break;
      default: {
        size_t len = 0;
        tachyon_rng_get_state(rng, nullptr, &len);
        SIM_CHECK(len == R::kStateSize, "generator %d: a state of %zu bytes", type, len);
        std::vector<uint8_t> state(len + 8, 0x5a);
        tachyon_rng_get_state(rng, state.data(), &len);
        for (size_t k = len; k < state.size(); ++k) SIM_CHECK(state[k] == 0x5a, "generator %d writes past its state", type);
        tachyon_rng* r = tachyon_rng_create_from_state(type, state.data(), len);
        if (sim::Chance(1, 2)) std::swap(r, rng);
        tachyon_rng_destroy(r);
      }
    }
  }
  tachyon_rng_destroy(rng);
}

// ---- matrices -----------------------------------------------------------------
void Matrices() {
  size_t rows = sim::Below(9), cols = sim::Below(9);
  auto v = vu::Vec<BabyBear>(rows * cols);
  auto was = v;
  auto* m = tachyon_baby_bear_row_major_matrix_create(c_cast(v.data()), rows, cols);
  std::fill(v.begin(), v.end(), BabyBear(7));  // the matrix has a copy
  auto* k = tachyon_baby_bear_row_major_matrix_clone(m);
  auto check = [&](tachyon_baby_bear_row_major_matrix* m, const std::vector<BabyBear>& want) {
    SIM_CHECK(tachyon_baby_bear_row_major_matrix_get_rows(m) == rows && tachyon_baby_bear_row_major_matrix_get_cols(m) == cols, "another shape");
    for (size_t r = 0; r < rows; ++r)
      for (size_t c = 0; c < cols; ++c) {
        SIM_CHECK(native_cast(tachyon_baby_bear_row_major_matrix_get_element(m, r, c)) == want[r * cols + c], "element (%zu, %zu) of %zu x %zu", r, c, rows, cols);
        SIM_CHECK(native_cast(tachyon_baby_bear_row_major_matrix_get_const_data_ptr(m)[r * cols + c]) == want[r * cols + c], "stored element (%zu, %zu)", r, c);
      }
  };
  check(m, was);
  check(k, was);
  if (rows * cols) {
    size_t at = sim::Below(rows * cols);
    BabyBear e = vu::Elem<BabyBear>();
    tachyon_baby_bear_row_major_matrix_get_data_ptr(k)[at] = c_cast(e);
    auto now = was;
    now[at] = e;
    check(k, now);
    check(m, was);
  }
  tachyon_baby_bear_row_major_matrix_destroy(m);
  if (rows * cols) (void)tachyon_baby_bear_row_major_matrix_get_element(k, 0, 0);
  tachyon_baby_bear_row_major_matrix_destroy(k);
}
// ---- rational evaluations -----------------------------------------------------
void Rationals() {
  size_t n = vu::Size(40);
  if (n == 0) n = 1;
  CDomain* domain = tachyon_bn254_univariate_evaluation_domain_create(n);
  size_t size = Pow2(n);
  CRational* r = tachyon_bn254_univariate_evaluation_domain_empty_rational_evals(domain);
  SIM_CHECK(tachyon_bn254_univariate_rational_evaluations_len(r) == size, "%zu rational values instead of %zu", tachyon_bn254_univariate_rational_evaluations_len(r), size);
  std::vector<F> num(size, F::Zero()), den(size, F::One());
  for (size_t k = 0, ops = sim::Below(3 * size + 1); k < ops; ++k) {
    size_t i = sim::Below(size);
    switch (sim::Below(3)) {
      case 0: num[i] = F::Zero(); den[i] = F::One(); tachyon_bn254_univariate_rational_evaluations_set_zero(r, i); break;
      case 1: num[i] = vu::Elem<F>(); den[i] = F::One(); tachyon_bn254_univariate_rational_evaluations_set_trivial(r, i, c_cast(&num[i])); break;
      default: num[i] = vu::Elem<F>(); den[i] = vu::NonZero<F>(); tachyon_bn254_univariate_rational_evaluations_set_rational(r, i, c_cast(&num[i]), c_cast(&den[i])); break;
    }
  }
  CRational* clone = tachyon_bn254_univariate_rational_evaluations_clone(r);
  if (sim::Chance(1, 2)) std::swap(clone, r);
  CEvals* e = tachyon_bn254_univariate_rational_evaluations_batch_evaluate(r);
  SIM_CHECK(tachyon_bn254_univariate_evaluations_len(e) == size, "%zu values", tachyon_bn254_univariate_evaluations_len(e));
  for (size_t i = 0; i < size; ++i) {
    SIM_CHECK(native_cast(*e)[i] * den[i] == num[i], "rational value %zu of %zu is wrong", i, size);
    F one;
    tachyon_bn254_univariate_rational_evaluations_evaluate(clone, i, c_cast(&one));
    SIM_CHECK(one * den[i] == num[i], "rational value %zu of %zu is wrong on its own", i, size);
  }
  tachyon_bn254_univariate_rational_evaluations_destroy(r);
  tachyon_bn254_univariate_rational_evaluations_destroy(clone);
  tachyon_bn254_univariate_evaluations_destroy(e);
  CRational* empty = tachyon_bn254_univariate_rational_evaluations_create();
  SIM_CHECK(tachyon_bn254_univariate_rational_evaluations_len(empty) == 0, "new rational values are not empty");
  CEvals* none = tachyon_bn254_univariate_rational_evaluations_batch_evaluate(empty);
  SIM_CHECK(tachyon_bn254_univariate_evaluations_len(none) == 0, "values from nothing");
  tachyon_bn254_univariate_evaluations_destroy(none);
  tachyon_bn254_univariate_rational_evaluations_destroy(empty);
  tachyon_bn254_univariate_evaluation_domain_destroy(domain);
}
}  // namespace

SIM_SCENARIO("C26", fields, 0, 2, 1) {
  for (size_t k = 0; k < 6; ++k) kFields[sim::Below(std::size(kFields))]();
}
SIM_SCENARIO("C26", points, 0, 2, 1) {
  for (size_t k = 0; k < 2; ++k) kPoints[sim::Below(std::size(kPoints))]();
}
SIM_SCENARIO("C26", msm, sim::kOmp, 3, 3) {
  size_t max = sim::Chance(1, 6) ? 70 : 12;
  if (sim::Chance(2, 3)) Msm_bn254(max);
  else Msm_bls12_381(max);
}
SIM_SCENARIO("C26", univariate, sim::kOmp, 3, 3) {
  size_t n = std::max<size_t>(1, vu::Size(sim::Chance(1, 4) ? 300 : 40));
  size_t size = Pow2(n);
  auto values = vu::Vec<F>(size);
  NoLeak leak;
  {
    CDomain* domain = tachyon_bn254_univariate_evaluation_domain_create(n);
    SIM_CHECK(native_cast(*domain).size() == size, "a domain of %zu instead of %zu", native_cast(*domain).size(), size);
    F gen = native_cast(*domain).group_gen();
    fft::GenHasOrder(gen, size, 0);
    CPoly* zero = tachyon_bn254_univariate_evaluation_domain_empty_poly(domain);
    SameCoeffs(native_cast(*zero), {}, "an empty polynomial");
    CPoly* fresh = tachyon_bn254_univariate_dense_polynomial_create();
    SameCoeffs(native_cast(*fresh), {}, "a new polynomial");
    CEvals* none = tachyon_bn254_univariate_evaluations_create();
    SIM_CHECK(tachyon_bn254_univariate_evaluations_len(none) == 0, "new evaluations are not empty");
    Transforms(domain, size, gen, values);
    tachyon_bn254_univariate_evaluations_destroy(none);
    tachyon_bn254_univariate_dense_polynomial_destroy(fresh);
    tachyon_bn254_univariate_dense_polynomial_destroy(zero);
    tachyon_bn254_univariate_evaluation_domain_destroy(domain);
  }
  if (sim::Chance(1, 2)) {  // the roots of unity of a size are kept for the next domain of that size
    leak = NoLeak();
    CDomain* domain = tachyon_bn254_univariate_evaluation_domain_create(n);
    Transforms(domain, size, native_cast(*domain).group_gen(), values);
    tachyon_bn254_univariate_evaluation_domain_destroy(domain);
    leak.Check("polynomials");
  }
}
SIM_SCENARIO("C26", rationals, sim::kOmp, 2, 3) { Rationals(); }
SIM_SCENARIO("C26", generators, 0, 2, 1) {
  NoLeak leak;
  if (sim::Chance(1, 2)) Generator<crypto::XORShiftRNG>(TACHYON_RNG_XOR_SHIFT);
  else Generator<crypto::ChaCha20RNG>(TACHYON_RNG_CHA_CHA20);
  leak.Check("generators");
  SIM_CHECK(tachyon_get_runtime_version() == TACHYON_C_VERSION && !strcmp(tachyon_get_runtime_version_str(), TACHYON_C_VERSION_STR), "another version");
}
SIM_SCENARIO("C26", refused_states, 0, 1, 1) {
  uint8_t type = (uint8_t)sim::Below(2);
  size_t want = type == TACHYON_RNG_XOR_SHIFT ? (size_t)crypto::XORShiftRNG::kStateSize : (size_t)crypto::ChaCha20RNG::kStateSize;
  std::vector<uint8_t> state(sim::Below(want));
  for (auto& b : state) b = (uint8_t)sim::Rand();
  sim::MustAbort("a generator from a truncated state", [&] { tachyon_rng_create_from_state(type, state.data(), state.size()); });
}
SIM_SCENARIO("C26", transcripts, 0, 2, 1) {
  NoLeak leak;
  switch (sim::Below(4)) {
    case 0: Transcript<h2::Blake2bWriter<G>>(TACHYON_HALO2_BLAKE2B_TRANSCRIPT); break;
    case 1: Transcript<h2::PoseidonWriter<G>>(TACHYON_HALO2_POSEIDON_TRANSCRIPT); break;
    case 2: Transcript<h2::Sha256Writer<G>>(TACHYON_HALO2_SHA256_TRANSCRIPT); break;
    default: Transcript<h2::SnarkVerifierPoseidonWriter<G>>(TACHYON_HALO2_SNARK_VERIFIER_POSEIDON_TRANSCRIPT); break;
  }
  leak.Check("transcripts");
}
SIM_SCENARIO("C26", matrices, 0, 1, 1) {
  NoLeak leak;
  Matrices();
  leak.Check("matrices");
}
// Callers with objects of their own, and a domain that they share.
SIM_SCENARIO("C26", callers, sim::kMt, 4, 6) {
  size_t n = sim::Range(1, 16), size = Pow2(n);
  CDomain* domain = tachyon_bn254_univariate_evaluation_domain_create(n);
  F gen = native_cast(*domain).group_gen();
  struct Job {
    uint64_t seed;
    uint64_t kind;
    size_t which;
  };
  std::vector<Job> jobs(sim::Range(2, 4));
  bool same = sim::Chance(1, 2);
  for (auto& j : jobs) {
    j = {sim::Rand(), sim::Below(10), (size_t)sim::Rand()};
    if (same) j.kind = jobs[0].kind;
  }
  std::vector<std::thread> threads;
  for (auto& j : jobs)
    threads.emplace_back([&j, domain, size, gen] {
      sim::Stream stream(j.seed);
      switch (j.kind) {
        case 0: case 1: {
          auto values = vu::Vec<F>(size);
          CDomain* own = tachyon_bn254_univariate_evaluation_domain_create(size);
          Transforms(domain, size, gen, values);
          Transforms(own, size, gen, values);
          tachyon_bn254_univariate_evaluation_domain_destroy(own);
          break;
        }
        case 2: Msm_bn254(8, false); break;
        case 3: Msm_bls12_381(6, false); break;
        case 4: Generator<crypto::ChaCha20RNG>(TACHYON_RNG_CHA_CHA20); break;
        case 5: Generator<crypto::XORShiftRNG>(TACHYON_RNG_XOR_SHIFT); break;
        case 6:
          if (j.which % 2) Transcript<h2::Blake2bWriter<G>>(TACHYON_HALO2_BLAKE2B_TRANSCRIPT);
          else Transcript<h2::Sha256Writer<G>>(TACHYON_HALO2_SHA256_TRANSCRIPT);
          break;
        case 7: Matrices(); break;
        case 8: Rationals(); break;
        default:
          if (j.which % 3) kFields[j.which / 3 % std::size(kFields)]();
          else kPoints[j.which / 3 % std::size(kPoints)]();
      }
    });
  for (auto& t : threads) t.join();
  tachyon_bn254_univariate_evaluation_domain_destroy(domain);
}
