// C05: Fourier transforms agree with direct evaluation and invert exactly.
#include "fft.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

using namespace tachyon;
using namespace tachyon::math;
using Mixed = bn384_small_two_adicity::Fq;

SIM_WARMUP(fields) {
  BabyBear::Init();
  PackedFieldTraits<BabyBear>::PackedField::Init();
  bn254::Fr::Init();
  bls12_381::Fr::Init();
  Mixed::Init();
}
namespace {
constexpr size_t kMax = ((size_t)1 << 22) - 1;
template <typename F>
using Base = UnivariateEvaluationDomain<F, kMax>;
template <typename F>
struct Kit {
  std::unique_ptr<Base<F>> d, coset;
  const Base<F>* p;
  size_t n;
  F gen, off = F::One();
};
unsigned MixedBase() { return 3; }
size_t Coeffs(size_t max) {  // number of coefficients asked of the domain
  size_t n = vu::Size(max);
  return n ? n : 1;
}
template <typename F, bool kMixed>
Kit<F> Make(size_t max) {
  size_t want = Coeffs(max);
  Kit<F> k;
  if constexpr (kMixed) k.d = MixedRadixEvaluationDomain<F, kMax>::Create(want);
  else if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) k.d = sim::Chance(1, 3) ? Base<F>::Create(want) : std::unique_ptr<Base<F>>(Radix2EvaluationDomain<F, kMax>::Create(want));
  else k.d = Radix2EvaluationDomain<F, kMax>::Create(want);
  k.p = k.d.get();
  if (sim::Chance(1, 2)) {
    k.off = sim::Chance(1, 2) ? F::FromMontgomery(F::Config::kSubgroupGenerator) : vu::NonZero<F>();
    k.coset = k.d->GetCoset(k.off);
    k.p = k.coset.get();
  }
  k.n = k.p->size();
  k.gen = k.p->group_gen();
  SIM_CHECK(k.n >= want && (!kMixed ? (k.n & (k.n - 1)) == 0 && (k.n == 1 || k.n / 2 < want) : true), "domain of %zu for %zu coefficients", k.n, want);
  if constexpr (kMixed) {  // the smallest 2^a * 3^b that fits
    size_t best = SIZE_MAX;
    for (size_t a = 1, i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i, a *= F::Config::kSmallSubgroupBase) { size_t r = a; while (r < want) r *= 2; best = std::min(best, r); }
    SIM_CHECK(k.n == best, "domain of %zu for %zu coefficients, not %zu", k.n, want, best);
  }
  unsigned q = 0;
  if constexpr (kMixed) q = F::Config::kSmallSubgroupBase;
  fft::GenHasOrder(k.gen, k.n, q);
  SIM_CHECK(k.p->offset() == k.off && (k.gen * k.p->group_gen_inv()).IsOne() && (k.off * k.p->offset_inv()).IsOne() && k.p->offset_pow_size() == fft::Pow(k.off, k.n) && (k.p->size_inv() * k.p->size_as_field_element()).IsOne(), "parameters of the domain");
  F nn = F::Zero();
  for (size_t b = 64; b-- > 0;) { nn = nn + nn; if (k.n >> b & 1) nn = nn + F::One(); }
  SIM_CHECK(k.p->size_as_field_element() == nn, "size as a field element");
  return k;
}
template <typename F, bool kMixed>
void Transform(size_t max) {
  Kit<F> k = Make<F, kMixed>(max);
  using Poly = typename Base<F>::DensePoly;
  using Co = typename Base<F>::DenseCoeffs;
  using Evals = typename Base<F>::Evals;
  size_t len = sim::Chance(1, 3) ? k.n : sim::Chance(1, 2) ? sim::Range(1, k.n) : sim::Range(1, std::min<size_t>(k.n, 9));
  std::vector<F> c = vu::Vec<F>(len);
  int form = (int)sim::Below(4);
  sim::Describe("transform n=%zu coeffs=%zu coset=%d form=%d field=%zuB mixed=%d", k.n, len, k.coset != nullptr, form, sizeof(F), kMixed);
  std::vector<F> e;
  {
    Poly poly(Co(c, true));
    Evals ev = form & 1 ? k.p->FFT(std::move(poly)) : k.p->FFT(poly);
    e = ev.evaluations();
    if (!(form & 1)) SIM_CHECK(poly.coefficients().coefficients() == fft::Trim(c), "the transformed polynomial was changed");
  }
  if (fft::Trim(c).empty()) for (const F& x : e) SIM_CHECK(x.IsZero(), "transform of zero");
  else fft::IsTransform(c, e, k.n, k.gen, k.off, "forward transform");
  vu::OutcomeVec(e);
  // and back
  {
    Evals ev(e);
    Poly back = form & 2 ? k.p->IFFT(std::move(ev)) : k.p->IFFT(ev);
    SIM_CHECK(back.coefficients().coefficients() == fft::Trim(c), "the inverse transform does not recover the polynomial (n=%zu, %zu coefficients)", k.n, len);
    if (!(form & 2)) SIM_CHECK(ev.evaluations() == e, "the inverted values were changed");
  }
  // inverse of arbitrary values, also fewer than the domain holds
  size_t m = sim::Chance(1, 2) ? k.n : sim::Range(1, k.n);
  std::vector<F> v = vu::Vec<F>(m);
  Poly q = k.p->IFFT(Evals(v));
  std::vector<F> qc = q.coefficients().coefficients();
  SIM_CHECK(qc.empty() || !qc.back().IsZero(), "leading zero coefficients");
  fft::IsTransform(qc, fft::Pad(v, k.n), k.n, k.gen, k.off, "inverse transform");
  vu::OutcomeVec(qc);
}
template <typename F, bool kMixed>
void Queries(size_t max) {
  Kit<F> k = Make<F, kMixed>(max);
  sim::Describe("domain queries n=%zu coset=%d field=%zuB mixed=%d", k.n, k.coset != nullptr, sizeof(F), kMixed);
  std::vector<F> w = fft::Elements(k.n, k.gen, k.off);
  vu::Same(k.p->GetElements(), w, "domain elements");
  vu::Same(Base<F>::GetRootsOfUnity(k.n, k.gen), fft::Elements(k.n, k.gen, F::One()), "roots of unity");
  for (int t = 0; t < 6; ++t) {
    size_t i = sim::Below(k.n);
    SIM_CHECK(k.p->GetElement((int64_t)i) == w[i], "element %zu", i);
    SIM_CHECK(k.p->GetElement((int64_t)i - (int64_t)k.n) == w[i], "element %zu counted from the end", i);
    SIM_CHECK(k.p->EvaluateVanishingPolynomial(w[i]).IsZero(), "the vanishing polynomial does not vanish at element %zu", i);
  }
  F offn = fft::Pow(k.off, k.n);
  for (int t = 0; t < 3; ++t) {
    bool in = sim::Chance(1, 3);
    size_t at = sim::Below(k.n);
    F tau = in ? w[at] : vu::Elem<F>();
    if (!in) { in = false; for (size_t i = 0; i < k.n; ++i) if (w[i] == tau) { in = true; at = i; } }
    F z = fft::Pow(tau, k.n) - offn;
    SIM_CHECK(k.p->EvaluateVanishingPolynomial(tau) == z, "value of the vanishing polynomial");
    SIM_CHECK(k.p->GetVanishingPolynomial().Evaluate(tau) == z, "value of the vanishing polynomial's coefficients");
    // L_i(tau) = z * w_i / (n * off^n * (tau - w_i))
    std::vector<F> want(k.n, F::Zero());
    if (in) want[at] = F::One();
    else {
      std::vector<F> d(k.n);
      for (size_t i = 0; i < k.n; ++i) d[i] = (tau - w[i]) * k.p->size_as_field_element() * offn;
      d = fft::Inv(d);
      for (size_t i = 0; i < k.n; ++i) want[i] = z * w[i] * d[i];
    }
    vu::Same(k.p->EvaluateAllLagrangeCoefficients(tau), want, "Lagrange coefficients");
    size_t a = sim::Below(k.n + 1), b = sim::Range(a, k.n);
    vu::Same(k.p->EvaluatePartialLagrangeCoefficients(tau, base::Range<size_t>(a, b)), std::vector<F>(want.begin() + a, want.begin() + b), "partial Lagrange coefficients");
  }
  F out = k.p->SampleElementOutsideDomain();
  SIM_CHECK(!(fft::Pow(out, k.n) - offn).IsZero(), "sampled element lies in the domain");
  // scaling by powers
  size_t m = vu::Size(3000);
  typename Base<F>::Evals ev(vu::Vec<F>(m));
  std::vector<F> want = ev.evaluations();
  F g = vu::Elem<F>(), p = F::One();
  for (F& x : want) { x = x * p; p = p * g; }
  Base<F>::DistributePowers(ev, g);
  vu::Same(ev.evaluations(), want, "distribution of powers");
}
template <typename F, bool kMixed>
void Filter() {
  Kit<F> k = Make<F, kMixed>(64);
  size_t sub = k.n;
  while (sub % 2 == 0 && sim::Chance(2, 3)) sub /= 2;
  std::unique_ptr<Base<F>> s;
  if constexpr (kMixed) s = MixedRadixEvaluationDomain<F, kMax>::Create(sub);
  else s = Radix2EvaluationDomain<F, kMax>::Create(sub);
  if (s->size() != sub) return;
  // the subdomain lies in the domain: off * gen^j * <sub>
  F so = k.off * fft::Pow(k.gen, sim::Below(k.n));
  auto sd = s->GetCoset(so);
  sim::Describe("filter n=%zu sub=%zu coset=%d", k.n, sub, k.coset != nullptr);
  std::vector<F> w = fft::Elements(k.n, k.gen, k.off);
  auto poly = k.p->GetFilterPolynomial(*sd);
  SIM_CHECK(poly.Degree() <= k.n - sub, "degree %zu", poly.Degree());
  F subn = fft::Pow(so, sub);
  for (size_t i = 0; i < k.n; ++i) {
    bool in = fft::Pow(w[i], sub) == subn;
    // 1 on the subdomain, 0 on the rest of the domain
    SIM_CHECK(poly.Evaluate(w[i]) == (in ? F::One() : F::Zero()), "filter polynomial at element %zu of %zu", i, k.n);
    auto v = k.p->EvaluateFilterPolynomial(*sd, w[i]);
    SIM_CHECK(v && *v == (in ? F::One() : F::Zero()), "filter value at element %zu of %zu", i, k.n);
  }
  F t = vu::Elem<F>();
  auto v = k.p->EvaluateFilterPolynomial(*sd, t);
  if (!(fft::Pow(t, sub) == subn)) SIM_CHECK(v && *v == poly.Evaluate(t), "filter value outside the domain");
}
}  // namespace
SIM_SCENARIO("C05", transform, sim::kOmp | sim::kSameOutcome, 6, 8) {
  switch (sim::Below(8)) {
    case 0: Transform<BabyBear, false>(4096); break;
    case 1: case 2: Transform<BabyBear, false>(600); break;
    case 3: Transform<bn254::Fr, false>(sim::Chance(1, 4) ? 2100 : 130); break;
    case 4: Transform<bls12_381::Fr, false>(130); break;
    case 5: Transform<Mixed, true>(sim::Chance(1, 4) ? 800 : 100); break;
    default: Transform<Mixed, true>(100); break;
  }
}
SIM_SCENARIO("C05", queries, sim::kOmp, 3, 6) {
  switch (sim::Below(4)) {
    case 0: Queries<BabyBear, false>(600); break;
    case 1: Queries<bn254::Fr, false>(100); break;
    case 2: Queries<bls12_381::Fr, false>(60); break;
    default: Queries<Mixed, true>(100); break;
  }
}
SIM_SCENARIO("C05", filter, sim::kOmp, 1, 4) {
  if (sim::Chance(1, 2)) Filter<BabyBear, false>(); else Filter<Mixed, true>();
}

namespace {
using M = RowMajorMatrix<BabyBear>;
using B = BabyBear;
size_t Rev(size_t i, size_t lg) { size_t q = 0; for (size_t b = 0; b < lg; ++b) if (i >> b & 1) q |= (size_t)1 << (lg - 1 - b); return q; }
std::vector<B> Col(const M& m, size_t j, bool rev, size_t lg) {
  std::vector<B> v(m.rows());
  for (size_t i = 0; i < v.size(); ++i) v[rev ? Rev(i, lg) : i] = m(i, j);
  return v;
}
M Random(size_t r, size_t c) {
  std::vector<B> v = vu::Vec<B>(r * c);
  M m(r, c);
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = v[i * c + j];
  return m;
}
}  // namespace
SIM_SCENARIO("C05", batch, sim::kOmp | sim::kSameOutcome, 6, 8) {
  bool naive = sim::Chance(1, 4);
  size_t lg = naive ? sim::Below(6) : sim::Range(0, sim::Chance(1, 6) ? 10 : 6), n = (size_t)1 << lg;
  size_t cols = sim::Chance(1, 3) ? sim::Range(1, 3) : sim::Range(1, 20);
  int op = (int)sim::Below(5);
  size_t added = op >= 2 ? sim::Below(4) : 0;
  B shift = sim::Chance(1, 4) ? B::One() : vu::NonZero<B>();
  bool rev = op == 4 && !naive && sim::Chance(1, 2);
  static const char* kOp[] = {"transform", "inverse", "extension", "extension of an lvalue", "extension"};
  sim::Describe("batch %s n=%zu cols=%zu added=%zu naive=%d keep_reversed=%d", kOp[op], n, cols, added, naive, rev);
  B gen;
  SIM_CHECK(B::GetRootOfUnity(n, &gen), "root");
  fft::GenHasOrder(gen, n, 0);
  M m = Random(n, cols), in = m;
  auto d = Radix2EvaluationDomain<B, kMax>::Create(n);
  if (!naive) SIM_CHECK(d->group_gen() == gen, "different generators");
  NaiveBatchFFT<B> nv;
  if (op == 0) {
    if (naive) nv.FFTBatch(m);
    else if (sim::Chance(1, 3)) { Eigen::Map<M> v = math::Map(m); d->FFTBatch(v); }
    else d->FFTBatch(m);
    for (size_t j = 0; j < cols; ++j) fft::IsTransform(Col(in, j, false, lg), Col(m, j, false, lg), n, gen, B::One(), "batch transform");
  } else if (op == 1) {
    if (naive) nv.IFFTBatch(m); else d->IFFTBatch(m);
    for (size_t j = 0; j < cols; ++j) fft::IsTransform(Col(m, j, false, lg), Col(in, j, false, lg), n, gen, B::One(), "batch inverse");
  } else {
    size_t big = n << added;
    M out(big, cols);
    if (naive) { if (op == 3) nv.CosetLDEBatch(m, added, shift, out); else nv.CosetLDEBatch(std::move(m), added, shift, out); }
    else if (op == 3) { bool r2 = sim::Chance(1, 3); rev = r2; d->CosetLDEBatch(m, added, shift, out, !r2); }
    else if (op == 4) d->CosetLDEBatch(std::move(m), added, shift, out, !rev);
    else d->CosetLDEBatch(std::move(m), added, shift, out);
    if (op == 3) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < cols; ++j) SIM_CHECK(m(i, j) == in(i, j), "the extended matrix was changed");
    B g2;
    SIM_CHECK(B::GetRootOfUnity(big, &g2), "root");
    SIM_CHECK((size_t)out.rows() == big && (size_t)out.cols() == cols, "shape of the extension");
    auto sd = Radix2EvaluationDomain<B, kMax>::Create(n);
    for (size_t j = 0; j < cols; ++j) {
      // the polynomial through the column, by the (separately checked) naive inverse
      std::vector<B> e = Col(in, j, false, lg), c(n);
      if (n <= 64) {
        B gi = *gen.Inverse(), ni = sd->size_inv(), x = B::One();
        for (size_t i = 0; i < n; ++i) { c[i] = fft::Horner(e, x) * ni; x = x * gi; }
      } else c = fft::Pad(sd->IFFT(Base<B>::Evals(e)).coefficients().coefficients(), n);
      fft::IsTransform(c, Col(out, j, rev, lg + added), big, g2, shift, "low-degree extension");
    }
    m = out;
  }
  sim::OutcomeVal(m.rows());
  sim::Outcome(m.data(), m.size() * sizeof(B));
}
