// C06: shared caches and one-time set-up. Nothing is warmed up: every run is a fresh process whose first use of everything
// happens on simulated threads.
#include <functional>
#include <set>
#include <thread>
#include "fft.h"
#include "tachyon/base/random.h"
#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"

using namespace tachyon;
using namespace tachyon::math;
namespace {
constexpr size_t kMax = ((size_t)1 << 22) - 1;
template <typename F, typename M>
F PowMod(const F& b, const M& m) {
  if constexpr (std::is_integral_v<M>) {
    return fft::Pow(b, m);
  } else {
    F r = F::One();
    for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
      r = r * r;
      if (m.limbs[i / 64] >> (i % 64) & 1) r = r * b;
    }
    return r;
  }
}
template <typename F>
void Frobenius(const char* what) {
  using P = typename F::BasePrimeField;
  F x = vu::Uni<F>(), y = x;
  unsigned k = sim::Chance(1, 4) ? (unsigned)sim::Range(1, std::min<unsigned>(F::ExtensionDegree(), 3)) : 1;
  for (unsigned i = 0; i < k; ++i) y = PowMod(y, P::Config::kModulus);
  F z = x;
  z.FrobeniusMapInPlace(k);
  SIM_CHECK(z == y, "%s: Frobenius map %u differs from raising to the power of the characteristic", what, k);
  if (!x.IsZero()) SIM_CHECK((x * *x.Inverse()).IsOne(), "%s: inverse", what);
  for (int j = 1; j < (int)F::ExtensionDegree(); ++j) {  // each coefficient of the table
    z = x;
    z.FrobeniusMapInPlace(j);
    F w = z;
    w.FrobeniusMapInPlace(F::ExtensionDegree() - j);
    SIM_CHECK(w == x, "%s: Frobenius maps %d and %d do not compose to the identity", what, j, (int)F::ExtensionDegree() - j);
  }
}
template <typename Curve>
void Group(const char* what) {
  using J = typename Curve::JacobianPoint;
  using S = typename Curve::ScalarField;
  J g = J::Generator();
  SIM_CHECK(!g.IsZero() && Curve::IsOnCurve(g), "%s: generator on the curve", what);
  J r = J::Zero();
  auto m = S::Config::kModulus;
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r += g;
  }
  SIM_CHECK(r.IsZero(), "%s: generator has the group order", what);
}
template <typename Curve>
void SimpleGroup(const char* what) {
  using J = typename Curve::JacobianPoint;
  J g = J::Generator();
  SIM_CHECK(!g.IsZero() && Curve::IsOnCurve(g) && Curve::IsOnCurve(g.Double()), "%s: generator on the curve", what);
  auto a = g.Double().Add(g).ToAffine();
  SIM_CHECK(Curve::IsOnCurve(a) && a == (g + g + g).ToAffine(), "%s: group operations", what);
}
template <typename F>
void Field(const char* what) {
  F x = vu::Uni<F>(), y = vu::NonZero<F>();
  SIM_CHECK((y * *y.Inverse()).IsOne() && (x / y).value() * y == x && F::One() + F::MinusOne() == F::Zero() && F::TwoInv() + F::TwoInv() == F::One(), "%s: arithmetic", what);
}
template <typename F>
void Roots(const char* what) {
  size_t n = (size_t)1 << sim::Range(1, 6);
  F g;
  SIM_CHECK(F::GetRootOfUnity(n, &g), "%s: root of unity", what);
  fft::GenHasOrder(g, n, 0);
  auto gen = F::FromMontgomery(F::Config::kSubgroupGenerator);
  SIM_CHECK(!gen.IsZero() && !gen.IsOne() && fft::Pow(fft::Pow(gen, 2), 1) == gen * gen, "%s: generator", what);
}
template <typename P>
void Packed(const char* what) {
  using F = typename PackedFieldTraits<P>::Field;
  F a = vu::Uni<F>(), b = vu::Uni<F>();
  P x = P::Broadcast(a), y = P::Broadcast(b);
  P z = x * y + x - y;
  F w = a * b + a - b;
  for (size_t i = 0; i < P::N; ++i) SIM_CHECK(z[i] == w && P::One()[i].IsOne() && P::MinusOne()[i] == F::MinusOne() && P::Zero()[i].IsZero(), "%s: lane %zu", what, i);
}
struct Use { const char* name; void (*init)(); void (*check)(); };
const Use kUses[] = {
    {"bn254 curve", [] { bn254::BN254Curve::Init(); }, [] {
       Field<bn254::Fr>("bn254 Fr"); Field<bn254::Fq>("bn254 Fq"); Frobenius<bn254::Fq12>("bn254 Fq12"); SimpleGroup<bn254::G1Curve>("bn254 G1"); SimpleGroup<bn254::G2Curve>("bn254 G2");
       if (sim::Chance(1, 8)) Group<bn254::G2Curve>("bn254 G2"); }},
    {"bn254 G1", [] { bn254::G1Curve::Init(); }, [] { SimpleGroup<bn254::G1Curve>("bn254 G1"); if (sim::Chance(1, 4)) Group<bn254::G1Curve>("bn254 G1"); }},
    {"bn254 G2", [] { bn254::G2Curve::Init(); }, [] { Frobenius<bn254::Fq2>("bn254 Fq2"); SimpleGroup<bn254::G2Curve>("bn254 G2"); }},
    {"bn254 Fq12", [] { bn254::Fq12::Init(); }, [] { Frobenius<bn254::Fq12>("bn254 Fq12"); Frobenius<bn254::Fq6>("bn254 Fq6"); }},
    {"bn254 Fr", [] { bn254::Fr::Init(); }, [] { Field<bn254::Fr>("bn254 Fr"); Roots<bn254::Fr>("bn254 Fr"); }},
    {"bls12_381 curve", [] { bls12_381::BLS12_381Curve::Init(); }, [] {
       Field<bls12_381::Fr>("bls12_381 Fr"); Frobenius<bls12_381::Fq12>("bls12_381 Fq12"); SimpleGroup<bls12_381::G1Curve>("bls12_381 G1"); SimpleGroup<bls12_381::G2Curve>("bls12_381 G2"); }},
    {"bls12_381 Fq12", [] { bls12_381::Fq12::Init(); }, [] { Frobenius<bls12_381::Fq12>("bls12_381 Fq12"); Frobenius<bls12_381::Fq2>("bls12_381 Fq2"); }},
    {"bn384 Fq", [] { bn384_small_two_adicity::Fq::Init(); }, [] { Field<bn384_small_two_adicity::Fq>("bn384 Fq"); }},
    {"baby_bear4", [] { BabyBear4::Init(); }, [] { Frobenius<BabyBear4>("BabyBear4"); Field<BabyBear>("BabyBear"); Roots<BabyBear>("BabyBear"); }},
    {"packed baby_bear", [] { BabyBear::Init(); PackedBabyBear::Init(); }, [] { Packed<PackedBabyBear>("PackedBabyBear"); }},
    {"koala_bear", [] { KoalaBear::Init(); }, [] { Field<KoalaBear>("KoalaBear"); Roots<KoalaBear>("KoalaBear"); }},
    {"packed koala_bear", [] { KoalaBear::Init(); PackedKoalaBear::Init(); }, [] { Packed<PackedKoalaBear>("PackedKoalaBear"); }},
    {"m31 circle", [] { m31::G1Circle::Init(); }, [] {
       using A = m31::G1AffinePoint;
       A g = A::Generator();
       SIM_CHECK(m31::G1Circle::IsOnCircle(g), "generator on the circle");
       A d = g.Double();
       SIM_CHECK(m31::G1Circle::IsOnCircle(d) && d == g + g, "circle operations");
       Field<Mersenne31>("Mersenne31"); }},
};
}  // namespace
SIM_SCENARIO("C06", first_use, sim::kMt, 3, 12) {
  unsigned nt = (unsigned)sim::Range(2, 4);
  struct Plan { std::vector<size_t> uses; };
  std::vector<Plan> plan(nt);
  size_t common = sim::Below(std::size(kUses));
  std::string d;
  for (auto& p : plan) {
    for (size_t k = sim::Range(1, 2); k; --k) p.uses.push_back(sim::Chance(2, 3) ? common : sim::Below(std::size(kUses)));
    for (size_t u : p.uses) d += std::string(kUses[u].name) + ",";
    d += " | ";
  }
  sim::Describe("first use by %u threads: %s", nt, d.c_str());
  std::vector<std::thread> th;
  for (auto& p : plan) th.emplace_back([&p] { for (size_t u : p.uses) { kUses[u].init(); kUses[u].check(); } });
  for (auto& t : th) t.join();
  if (sim::Chance(1, 3)) for (auto& p : plan) for (size_t u : p.uses) { kUses[u].init(); kUses[u].check(); }
}

namespace {
// Values that need no initialised field.
template <typename F>
F Raw(uint64_t v) { return F(v % 0x78000000); }
template <typename F>
struct Shared {
  using Base = UnivariateEvaluationDomain<F, kMax>;
  std::vector<std::unique_ptr<Base>> domains;  // slots filled before the threads start, read by all
};
struct Op { int kind; size_t lg, added, cols, slot; uint64_t seed; int field; };
template <typename F>
std::vector<F> Data(uint64_t seed, size_t n) {
  std::vector<F> v(n);
  for (auto& x : v) { seed = seed * 6364136223846793005u + 1442695040888963407u; x = Raw<F>(seed >> 30); }
  return v;
}
template <typename F>
void UseDomain(const UnivariateEvaluationDomain<F, kMax>& d, uint64_t seed, const char* what) {
  using Base = UnivariateEvaluationDomain<F, kMax>;
  size_t n = d.size(), k = 1 + seed % n;
  std::vector<F> c = Data<F>(seed, k);
  auto e = d.FFT(typename Base::DensePoly(typename Base::DenseCoeffs(std::vector<F>(c), true)));
  fft::IsTransform(c, fft::Pad(e.evaluations(), n), n, d.group_gen(), d.offset(), what);
  auto p = d.IFFT(e);
  vu::Same(fft::Trim(p.coefficients().coefficients()), fft::Trim(c), what);
}
template <typename F>
void Transform(const Op& o, Shared<F>& sh, std::vector<std::unique_ptr<UnivariateEvaluationDomain<F, kMax>>>& mine) {
  using Base = UnivariateEvaluationDomain<F, kMax>;
  F::Init();
  switch (o.kind) {
    case 0:  // a fresh domain
      mine.push_back(Radix2EvaluationDomain<F, kMax>::Create((size_t)1 << o.lg));
      UseDomain<F>(*mine.back(), o.seed, "transform on a new domain");
      break;
    case 1:  // one made earlier
      if (!mine.empty()) UseDomain<F>(*mine[o.slot % mine.size()], o.seed, "transform on an earlier domain");
      break;
    case 2:  // one shared by the threads
      if (!sh.domains.empty()) UseDomain<F>(*sh.domains[o.slot % sh.domains.size()], o.seed, "transform on a shared domain");
      break;
    case 3: {
      std::unique_ptr<Base> d = Radix2EvaluationDomain<F, kMax>::Create((size_t)1 << o.lg);
      F off = Raw<F>(o.seed | 1);
      if (off.IsZero()) off = F::One();
      auto c = d->GetCoset(off);
      d.reset();
      UseDomain<F>(*c, o.seed, "transform on a coset");
      mine.push_back(std::move(c));
      break;
    }
    default:
      if constexpr (F::Config::kModulusBits <= 32) {
        PackedFieldTraits<F>::PackedField::Init();
        size_t lg = std::max<size_t>(o.lg, 1), n = (size_t)1 << lg, big = n << o.added;
        auto d = Radix2EvaluationDomain<F, kMax>::Create(n);
        RowMajorMatrix<F> in(n, o.cols), out(big, o.cols);
        std::vector<std::vector<F>> cs;
        std::vector<F> w = fft::Elements(n, d->group_gen(), F::One());
        for (size_t j = 0; j < o.cols; ++j) {
          cs.push_back(Data<F>(o.seed + j, n));
          for (size_t i = 0; i < n; ++i) in(i, j) = fft::Horner(cs[j], w[i]);
        }
        F shift = Raw<F>(o.seed >> 7) + F::One();
        if (shift.IsZero()) shift = F::One();
        if (o.kind == 4) {
          d->CosetLDEBatch(std::move(in), o.added, shift, out);
          F g;
          SIM_CHECK(F::GetRootOfUnity(big, &g), "root");
          for (size_t j = 0; j < o.cols; ++j) {
            std::vector<F> e(big);
            for (size_t i = 0; i < big; ++i) e[i] = out(i, j);
            fft::IsTransform(cs[j], e, big, g, shift, "low-degree extension");
          }
        } else {
          RowMajorMatrix<F> m(n, o.cols);
          for (size_t j = 0; j < o.cols; ++j) for (size_t i = 0; i < n; ++i) m(i, j) = cs[j][i];
          d->FFTBatch(m);
          for (size_t j = 0; j < o.cols; ++j) for (size_t i = 0; i < n; ++i) SIM_CHECK(m(i, j) == in(i, j), "batch transform: row %zu of %zu", i, n);
        }
        mine.push_back(std::move(d));
      }
  }
}
}  // namespace
SIM_SCENARIO("C06", transforms, sim::kMt | sim::kOmp, 5, 12) {
  unsigned nt = (unsigned)sim::Range(1, 4);
  std::vector<std::vector<Op>> plan(nt);
  size_t lgs[2] = {sim::Below(7), sim::Below(6)}, added = sim::Range(1, 2);
  if (sim::Chance(1, 2)) lgs[1] = lgs[0] + added;  // the extension of one size is another
  int fields = (int)sim::Below(4);              // which field each thread prefers
  std::string desc;
  for (auto& p : plan) {
    for (size_t k = sim::Range(1, nt == 1 ? 6 : 3); k; --k) {
      Op o;
      o.kind = (int)sim::Below(6);
      o.lg = std::min<size_t>(lgs[sim::Below(2)], 7);
      o.added = sim::Chance(2, 3) ? added : sim::Below(3);
      o.cols = sim::Range(1, 3);
      o.slot = sim::Rand();
      o.seed = sim::Rand();
      o.field = fields < 3 ? fields : (int)sim::Below(3);
      if (o.kind >= 4 && o.field == 1) o.field = 0;
      p.push_back(o);
      char b[64];
      snprintf(b, sizeof b, "%d/f%d/2^%zu+%zu ", o.kind, o.field, o.lg, o.added);
      desc += b;
    }
    desc += "| ";
  }
  Shared<BabyBear> sa; Shared<bn254::Fr> sb; Shared<KoalaBear> sc;
  bool share = sim::Chance(1, 3);
  if (share) {
    BabyBear::Init(); bn254::Fr::Init(); KoalaBear::Init();
    sa.domains.push_back(Radix2EvaluationDomain<BabyBear, kMax>::Create((size_t)1 << lgs[0]));
    sb.domains.push_back(Radix2EvaluationDomain<bn254::Fr, kMax>::Create((size_t)1 << lgs[0]));
    sc.domains.push_back(Radix2EvaluationDomain<KoalaBear, kMax>::Create((size_t)1 << lgs[0]));
  }
  sim::Describe("%u threads, shared=%d: %s", nt, share, desc.c_str());
  auto run = [&](std::vector<Op>& p) {
    std::vector<std::unique_ptr<UnivariateEvaluationDomain<BabyBear, kMax>>> a;
    std::vector<std::unique_ptr<UnivariateEvaluationDomain<bn254::Fr, kMax>>> b;
    std::vector<std::unique_ptr<UnivariateEvaluationDomain<KoalaBear, kMax>>> c;
    for (auto& o : p) {
      if (o.field == 0) Transform<BabyBear>(o, sa, a);
      else if (o.field == 1) Transform<bn254::Fr>(o, sb, b);
      else Transform<KoalaBear>(o, sc, c);
    }
  };
  if (nt == 1) { run(plan[0]); return; }
  std::vector<std::thread> th;
  for (auto& p : plan) th.emplace_back([&run, &p] { run(p); });
  for (auto& t : th) t.join();
}
// The process-wide random generator.
SIM_SCENARIO("C06", random_numbers, sim::kMt, 1, 12) {
  unsigned nt = (unsigned)sim::Range(2, 4);
  size_t each = sim::Range(1, 80);
  int way = (int)sim::Below(3);
  sim::Describe("%u threads draw %zu random values each, way %d", nt, each, way);
  std::vector<std::vector<uint64_t>> got(nt);
  std::vector<std::thread> th;
  for (auto& g : got)
    th.emplace_back([&g, each, way] {
      for (size_t i = 0; i < each; ++i) {
        if (way == 0) g.push_back(tachyon::base::Uniform(tachyon::base::Range<uint64_t>::All()));
        else if (way == 1) g.push_back(tachyon::base::Uniform(tachyon::base::Range<uint64_t>(1, (uint64_t)1 << 63)));
        else { auto b = tachyon::math::BigInt<4>::Random(tachyon::math::BigInt<4>::One() << 200); g.push_back(b[0] ^ b[1] ^ b[2]); }
      }
    });
  for (auto& t : th) t.join();
  std::set<uint64_t> all;
  for (auto& g : got)
    for (uint64_t v : g) {
      if (way == 1) SIM_CHECK(v >= 1 && v < (uint64_t)1 << 63, "a random value outside the range asked for");
      SIM_CHECK(all.insert(v).second, "two threads drew the same random value");
    }
}
