// C04: multi-scalar multiplication equals the sum of scalar multiples.
#include <list>
#include <thread>
#include "fft.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/test/sw_curve_config.h"
#include "tachyon/math/geometry/point_conversions.h"

using namespace tachyon;
using namespace tachyon::math;
SIM_WARMUP(curves) {
  bn254::G1Curve::Init();
  bn254::G2Curve::Init();
  test::G1Curve::Init();
  LOG(ERROR) << "warm up";
}
namespace {
template <typename J, typename S>
J Times(const J& p, const S& s) {  // double and add
  J r = J::Zero();
  auto m = s.ToBigInt();
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (!r.IsZero()) r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r + p;
  }
  return r;
}
template <typename F>
F Scalar() {
  switch (sim::Below(9)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return F::Zero() - F::One();
    case 3: return F::Zero() - F((uint32_t)sim::Below(5));
    case 4: { F r = F::One(); for (uint64_t k = sim::Below(F::Config::kModulusBits - 1); k; --k) r = r + r; return sim::Chance(1, 2) ? r : r - F::One(); }  // all-zero or all-one digits
    case 5: { F r = F::Zero(); for (uint64_t k = sim::Below(20); k; --k) r = r + F::One(); return r; }
    default: return vu::Uni<F>();
  }
}
// Small curve: exponents are counted modulo the group order by brute force instead.
template <typename Curve>
struct Input {
  using A = AffinePoint<Curve>;
  using J = JacobianPoint<Curve>;
  using F = typename Curve::ScalarField;
  std::vector<A> bases;
  std::vector<F> logs, scalars;
  J want;
  explicit Input(size_t n) {
    // Points with known logarithms, so that one multiplication gives the expected sum.
    std::vector<J> pool = {J::Zero(), J::Generator()};
    std::vector<F> lg = {F::Zero(), F::One()};
    size_t distinct = sim::Range(1, 24);
    F s = vu::Uni<F>();
    pool.push_back(Times(J::Generator(), s));
    lg.push_back(s);
    while (pool.size() < distinct + 2) {
      size_t i = sim::Below(pool.size()), j = sim::Below(pool.size());
      if (sim::Chance(1, 3)) { pool.push_back(-pool[i]); lg.push_back(F::Zero() - lg[i]); }
      else { pool.push_back(pool[i] + pool[j]); lg.push_back(lg[i] + lg[j]); }
    }
    std::vector<A> aff;
    for (const J& p : pool) aff.push_back(p.ToAffine());
    int style = (int)sim::Below(5);
    F common = Scalar<F>();
    F sum = F::Zero();
    for (size_t i = 0; i < n; ++i) {
      size_t k = style == 1 ? 1 : sim::Below(pool.size());
      if (style == 2 && i && sim::Chance(1, 2)) {  // cancels the previous term
        bases.push_back(sim::Chance(1, 2) ? bases[i - 1] : -bases[i - 1]);
        bool neg = !(bases[i] == bases[i - 1]);
        logs.push_back(neg ? F::Zero() - logs[i - 1] : logs[i - 1]);
        scalars.push_back(neg ? scalars[i - 1] : F::Zero() - scalars[i - 1]);
      } else {
        bases.push_back(aff[k]);
        logs.push_back(lg[k]);
        scalars.push_back(style == 3 ? common : Scalar<F>());
      }
      sum = sum + logs[i] * scalars[i];
    }
    want = Times(J::Generator(), sum);
  }
};
template <typename P, typename A>
std::vector<P> Convert(const std::vector<A>& v) {
  std::vector<P> r;
  for (const A& a : v) {
    if constexpr (std::is_same_v<P, A>) r.push_back(a);
    else r.push_back(ConvertPoint<P>(a));
  }
  return r;
}
size_t Len(bool tiny) { return tiny ? vu::Size(700) : sim::Chance(1, 5) ? sim::Range(28, 100) : sim::Below(34); }
int MaxThreads() {
#if defined(TACHYON_HAS_OPENMP)
  return omp_get_max_threads();
#else
  return 1;
#endif
}
template <typename B, typename J>
void IsPoint(const B& got, const J& want, const char* what, size_t i) {
  auto a = got.ToAffine();
  auto b = want.ToAffine();
  SIM_CHECK(a == b, "%s: wrong point (%zu)", what, i);
  sim::Outcome(&a.x(), sizeof a.x());
  sim::Outcome(&a.y(), sizeof a.y());
}
const PippengerParallelStrategy kStrategies[] = {PippengerParallelStrategy::kNone, PippengerParallelStrategy::kParallelWindow, PippengerParallelStrategy::kParallelTerm,
                                                 PippengerParallelStrategy::kParallelWindowAndTerm};
template <typename P>
void Variable(const char* name, bool tiny) {
  using Curve = typename P::Curve;
  using F = typename Curve::ScalarField;
  size_t n = Len(tiny);
  Input<Curve> in(n);
  int way = (int)sim::Below(8);
  bool mismatch = sim::Chance(1, 12), again = sim::Chance(1, 5);
  sim::Describe("%s n=%zu way=%d mismatch=%d threads=%d", name, n, way, mismatch, MaxThreads());
  std::vector<P> bases = Convert<P>(in.bases);
  std::vector<F>& sc = in.scalars;
  if (mismatch) { if (n && sim::Chance(1, 2)) bases.pop_back(); else sc.push_back(F::One()); }
  int before = MaxThreads();
  for (int round = 0; round <= (int)again; ++round) {
    auto ret = VariableBaseMSM<P>::Bucket::Generator();
    bool ok;
    if (way < 4) {
      PippengerAdapter<P> a;
      ok = a.RunWithStrategy(bases.begin(), bases.end(), sc.begin(), sc.end(), kStrategies[way], &ret);
    } else if (way < 6) {
      Pippenger<P> p;
      p.SetUseMSMWindowNAForTesting(way == 4);
      if (sim::Chance(1, 2)) p.SetParallelWindows(sim::Chance(1, 2));
      ok = p.Run(bases.begin(), bases.end(), sc.begin(), sc.end(), &ret);
    } else {
      VariableBaseMSM<P> m;
      ok = way == 6 ? m.Run(bases, sc, &ret) : m.Run(bases.begin(), bases.end(), sc.begin(), sc.end(), &ret);
    }
    SIM_CHECK(ok == !mismatch, "inputs of %s length were %s", mismatch ? "different" : "equal", ok ? "accepted" : "refused");
    if (ok) IsPoint(ret, in.want, "multi-scalar multiplication", n);
    SIM_CHECK(MaxThreads() == before, "the process-wide number of threads was %d and is %d", before, MaxThreads());
  }
}
template <typename P>
void Fixed(const char* name, bool tiny) {
  using Curve = typename P::Curve;
  using F = typename Curve::ScalarField;
  using J = JacobianPoint<Curve>;
  size_t n = tiny ? vu::Size(200) : sim::Below(10), hint = sim::Chance(1, 2) ? n : vu::Size(tiny ? 3000 : 40);
  Input<Curve> in(1);
  J base = Times(J::Generator(), in.logs[0]);
  int way = (int)sim::Below(4);
  bool mismatch = sim::Chance(1, 12);
  sim::Describe("%s n=%zu table for %zu way=%d mismatch=%d", name, n, hint, way, mismatch);
  std::vector<F> s(n);
  for (F& x : s) x = Scalar<F>();
  FixedBaseMSM<P> m;
  if (sim::Chance(1, 3)) m.Reset(vu::Size(100), Convert<P>(std::vector<AffinePoint<Curve>>{AffinePoint<Curve>::Generator()})[0]);  // a used one
  m.Reset(hint, Convert<P>(in.bases)[0]);
  using R = typename FixedBaseMSM<P>::AddResult;
  std::vector<R> out(n + (mismatch ? 1 : 0));
  bool ok = true;
  if (way == 0) ok = m.RunSerial(s, out);
  else if (way == 1) ok = m.Run(s, &out);
  else if (way == 2) { std::list<F> l(s.begin(), s.end()); std::list<R> o(out.begin(), out.end()); ok = m.Run(l, &o); std::copy(o.begin(), o.end(), out.begin()); }
  else { mismatch = false; for (size_t i = 0; i < n; ++i) out[i] = m.ScalarMul(s[i]); }
  SIM_CHECK(ok == !mismatch, "inputs of %s length were %s", mismatch ? "different" : "equal", ok ? "accepted" : "refused");
  if (!ok) return;
  for (size_t i = 0; i < n; ++i) IsPoint(out[i], Times(base, s[i]), "fixed-base multiple", i);
}
}  // namespace
SIM_SCENARIO("C04", variable_small, sim::kOmp | sim::kSameOutcome, 3, 8) {
  switch (sim::Below(4)) {
    case 0: Variable<test::AffinePoint>("small affine", true); break;
    case 1: Variable<test::JacobianPoint>("small jacobian", true); break;
    case 2: Variable<test::ProjectivePoint>("small projective", true); break;
    default: Variable<test::PointXYZZ>("small xyzz", true);
  }
}
SIM_SCENARIO("C04", variable, sim::kOmp | sim::kSameOutcome, 5, 6) {
  switch (sim::Below(6)) {
    case 0: Variable<bn254::G1JacobianPoint>("bn254 jacobian", false); break;
    case 1: Variable<bn254::G1ProjectivePoint>("bn254 projective", false); break;
    case 2: Variable<bn254::G2AffinePoint>("bn254 G2 affine", false); break;
    default: Variable<bn254::G1AffinePoint>("bn254 affine", false);
  }
}
SIM_SCENARIO("C04", fixed, sim::kOmp | sim::kSameOutcome, 3, 6) {
  switch (sim::Below(6)) {
    case 0: Fixed<test::AffinePoint>("small affine", true); break;
    case 1: Fixed<test::JacobianPoint>("small jacobian", true); break;
    case 2: Fixed<bn254::G1JacobianPoint>("bn254 jacobian", false); break;
    case 4: Fixed<bn254::G2AffinePoint>("bn254 G2 affine", false); break;
    default: Fixed<bn254::G1AffinePoint>("bn254 affine", false);
  }
}
// Several callers at once.
SIM_SCENARIO("C04", concurrent, sim::kOmp | sim::kMt, 1, 6) {
  using P = test::AffinePoint;
  unsigned nt = (unsigned)sim::Range(2, 3);
  std::vector<Input<test::G1Curve>> in;
  std::vector<int> way;
  for (unsigned i = 0; i < nt; ++i) { in.emplace_back(vu::Size(60)); way.push_back((int)sim::Below(4)); }
  sim::Describe("%u callers", nt);
  std::vector<VariableBaseMSM<P>::Bucket> out(nt);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      int before = MaxThreads();
      PippengerAdapter<P> a;
      SIM_CHECK(a.RunWithStrategy(in[i].bases.begin(), in[i].bases.end(), in[i].scalars.begin(), in[i].scalars.end(), kStrategies[way[i]], &out[i]), "refused");
      SIM_CHECK(MaxThreads() == before, "the caller's number of threads was %d and is %d", before, MaxThreads());
    });
  for (auto& t : th) t.join();
  for (unsigned i = 0; i < nt; ++i) IsPoint(out[i], in[i].want, "concurrent multi-scalar multiplication", i);
}
