// C24: pairings are bilinear, and a pairing of many pairs is the product of the single ones.
#include <list>
#include <thread>
#include "fft.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"

using namespace tachyon;
using namespace tachyon::math;
namespace {
int MaxThreads() {
#if defined(TACHYON_HAS_OPENMP)
  return omp_get_max_threads();
#else
  return 1;
#endif
}
template <typename J, typename S>
J Times(const J& p, const S& s) {
  J r = J::Zero();
  auto m = s.ToBigInt();
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (!r.IsZero()) r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r + p;
  }
  return r;
}
template <typename T, typename B>
T PowBig(const T& b, const B& m) {
  T r = T::One();
  bool any = false;
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (any) r = r * r;
    any = any || (m.limbs[i / 64] >> (i % 64) & 1);
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r * b;
  }
  return r;
}
template <typename Curve>
struct W {
  using A1 = typename Curve::G1Curve::AffinePoint;
  using A2 = typename Curve::G2Curve::AffinePoint;
  using J1 = typename Curve::G1Curve::JacobianPoint;
  using J2 = typename Curve::G2Curve::JacobianPoint;
  using F = typename A1::ScalarField;
  using Gt = typename Curve::Fp12;
  using Prep = typename Curve::G2Prepared;
  std::vector<A1> a;
  std::vector<A2> b;
  std::vector<Prep> p;
  std::vector<F> la, lb;
  F sum = F::Zero();
  static Gt base;  // the pairing of the generators
  static void Init() {
    Curve::Init();
    std::vector<A1> g1 = {A1::Generator()};
    std::vector<A2> g2 = {A2::Generator()};
    base = Pairing<Curve>(g1, g2);
  }
  static F Log() {  // small ones keep the expected power cheap
    if (sim::Chance(1, 5)) return vu::Elem<F>();
    F s = F::Zero();
    for (uint64_t k = sim::Below(24); k; --k) s = s + F::One();
    return sim::Chance(1, 3) ? F::Zero() - s : s;
  }
  Gt Want() const {
    F neg = F::Zero() - sum;
    return neg.ToBigInt() < sum.ToBigInt() ? *PowBig(base, neg.ToBigInt()).Inverse() : PowBig(base, sum.ToBigInt());
  }
  explicit W(size_t n) {
    // A few points with known logarithms; repeated, opposite and infinite ones are common.
    std::vector<F> xa = {F::Zero(), F::One()}, xb = xa;
    std::vector<A1> pa = {A1::Zero(), A1::Generator()};
    std::vector<A2> pb = {A2::Zero(), A2::Generator()};
    for (size_t k = sim::Range(1, 3); k-- > 0;) {
      F s = Log(), t = Log();
      xa.push_back(s); pa.push_back(Times(J1::Generator(), s).ToAffine());
      xb.push_back(t); pb.push_back(Times(J2::Generator(), t).ToAffine());
    }
    for (size_t i = 0; i < n; ++i) {
      size_t k = sim::Below(xa.size()), l = sim::Below(xb.size());
      if (sim::Chance(2, 3)) { if (!k) k = 1; if (!l) l = xb.size() - 1; }
      la.push_back(xa[k]); a.push_back(pa[k]);
      lb.push_back(xb[l]); b.push_back(pb[l]);
      if (i && sim::Chance(1, 8)) { la[i] = F::Zero() - la[i - 1]; a[i] = -a[i - 1]; lb[i] = lb[i - 1]; b[i] = b[i - 1]; }
      sum = sum + la[i] * lb[i];
    }
    for (const A2& q : b) p.push_back(Prep::From(q));
  }
};
template <typename Curve>
typename W<Curve>::Gt W<Curve>::base;
template <typename C>
void Feed(const C& g) { sim::Outcome(&g, sizeof g); }
template <typename Curve>
void Products(const char* name) {
  using World = W<Curve>;
  using Gt = typename World::Gt;
  size_t n = sim::Chance(1, 3) ? sim::Below(5) : sim::Range(1, 14);
  World w(n);
  int way = (int)sim::Below(4);
  sim::Describe("%s pairs=%zu way=%d threads=%d", name, n, way, MaxThreads());
  Gt got;
  if (way == 0) got = Pairing<Curve>(w.a, w.b);
  else if (way == 1) got = Pairing<Curve>(w.a, w.p);
  else if (way == 2) got = Curve::FinalExponentiation(Curve::MultiMillerLoop(w.a, w.p));
  else {  // split in two: the product of the parts
    size_t k = sim::Below(n + 1);
    std::vector<typename World::A1> a1(w.a.begin(), w.a.begin() + k), a2(w.a.begin() + k, w.a.end());
    std::vector<typename World::Prep> p1(w.p.begin(), w.p.begin() + k), p2(w.p.begin() + k, w.p.end());
    got = Pairing<Curve>(a1, p1) * Pairing<Curve>(a2, p2);
  }
  Feed(got);
  if (sim::Reference()) sim::Count("pairs", n);
  const Gt& e = World::base;
  SIM_CHECK(!e.IsOne(), "the pairing of the generators is one");
  SIM_CHECK(got == w.Want(), "a pairing of %zu pairs is not the product of the single pairings", n);
  if (sim::Chance(1, 6)) SIM_CHECK(PowBig(e, World::F::Config::kModulus).IsOne(), "the pairing of the generators has the wrong order");
  if (sim::Chance(1, 6)) {
    // equal pairs, opposite pairs
    auto a = w.a; auto p = w.p;
    for (size_t i = 0; i < n; ++i) { a.push_back(-w.a[i]); p.push_back(w.p[i]); }
    SIM_CHECK(Pairing<Curve>(a, p).IsOne(), "opposite pairs do not cancel");
  }
  if (n && sim::Chance(1, 12)) {
    w.a.pop_back();
    sim::MustAbort("lists of different lengths are paired", [&] { Pairing<Curve>(w.a, w.p); });
  }
}
template <typename Curve>
void Concurrent(const char* name) {
  using World = W<Curve>;
  World w(sim::Range(1, 9));
  int nt = (int)sim::Range(2, 3);
  sim::Describe("%s pairs=%zu readers=%d threads=%d", name, w.a.size(), nt, MaxThreads());
  auto want = w.Want();
  std::list<std::thread> t;
  for (int i = 0; i < nt; ++i)
    t.emplace_back([&] { SIM_CHECK(Pairing<Curve>(w.a, w.p) == want, "concurrent pairings of the same prepared points differ from the product of the single pairings"); });
  for (auto& x : t) x.join();
}
}  // namespace
SIM_WARMUP(pairing) {
  W<tachyon::math::bn254::BN254Curve>::Init();
  W<tachyon::math::bls12_381::BLS12_381Curve>::Init();
  LOG(ERROR) << "warm up";
}
namespace {
SIM_SCENARIO("C24", bn254, sim::kOmp | sim::kSameOutcome, 4, 4) { Products<tachyon::math::bn254::BN254Curve>("bn254"); }
SIM_SCENARIO("C24", bls12_381, sim::kOmp | sim::kSameOutcome, 4, 4) { Products<tachyon::math::bls12_381::BLS12_381Curve>("bls12_381"); }
SIM_SCENARIO("C24", shared_bn254, sim::kOmp | sim::kMt, 1, 3) { Concurrent<tachyon::math::bn254::BN254Curve>("bn254"); }
SIM_SCENARIO("C24", shared_bls12_381, sim::kOmp | sim::kMt, 1, 3) { Concurrent<tachyon::math::bls12_381::BLS12_381Curve>("bls12_381"); }
}  // namespace
