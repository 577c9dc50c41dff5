#include <map>
// C11: pairing-based polynomial commitments open correctly and bind; vector commitments equal their definition.
#include <memory>
#include <set>
#include "fft.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/commitments/polynomial_openings.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"

using namespace tachyon;
using namespace tachyon::math;
SIM_WARMUP(curves) {
  bn254::BN254Curve::Init();
  LOG(ERROR) << "warm up";
}
namespace {
constexpr size_t kMax = 31;
using Curve = bn254::BN254Curve;
using F = bn254::Fr;
using A = bn254::G1AffinePoint;
using J = bn254::G1JacobianPoint;
using Poly = UnivariateDensePolynomial<F, kMax>;
using Evals = UnivariateEvaluations<F, kMax>;
using Domain = UnivariateEvaluationDomain<F, kMax>;
J Times(const J& p, const F& s) {
  J r = J::Zero();
  auto m = s.ToBigInt();
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (!r.IsZero()) r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r + p;
  }
  return r;
}
J G(const F& s) { return Times(J::Generator(), s); }
int MaxThreads() {
#if defined(TACHYON_HAS_OPENMP)
  return omp_get_max_threads();
#else
  return 1;
#endif
}
template <typename C>
A Aff(const C& c) {
  if constexpr (std::is_same_v<C, A>) return c;
  else return c.ToAffine();
}
template <typename C>
void Is(const C& got, const J& want, const char* what) {
  A a = Aff(got), b = want.ToAffine();
  SIM_CHECK(a == b, "%s is not the value of the polynomial at the secret point times the generator", what);
  sim::Outcome(&a.x(), sizeof a.x());
  sim::Outcome(&a.y(), sizeof a.y());
}
Poly Make(std::vector<F> c) {
  c = fft::Trim(std::move(c));
  return Poly(typename Poly::Coefficients(std::move(c), true));
}
std::vector<F> Dft(const std::vector<F>& c, size_t n, const F& gen) {
  std::vector<F> w = fft::Elements(n, gen, F::One()), e(n);
  for (size_t i = 0; i < n; ++i) e[i] = fft::Horner(c, w[i]);
  return e;
}
F Tau(size_t n) {
  switch (sim::Below(8)) {
    case 0: return F::One();                                      // an element of every domain
    case 1: return F(2);
    case 2: { F g; SIM_REQUIRE(F::GetRootOfUnity(n, &g)); return fft::Pow(g, sim::Below(n)); }
    default: return vu::Uni<F>();
  }
}
template <typename T>
T Reload(const T& t) {
  base::Uint8VectorBuffer b;
  SIM_CHECK(b.Grow(base::EstimateSize(t)) && b.Write(t) && b.Done(), "parameters do not fit the size estimated for them");
  b.set_buffer_offset(0);
  T r;
  SIM_CHECK(b.Read(&r), "saved parameters cannot be read back");
  return r;
}
// Monomial, Lagrange and batch commitments against [p(tau)]G.
template <typename C>
void Commitments(const char* name) {
  using Kzg = crypto::KZG<A, kMax, C>;
  size_t n = (size_t)1 << sim::Below(6);
  F tau = Tau(n);
  Kzg kzg;
  size_t batch = sim::Chance(1, 2) ? sim::Range(1, 6) : 0;
  size_t down = n > 1 && sim::Chance(1, 3) ? n >> sim::Range(1, base::bits::Log2Ceiling((uint32_t)n)) : 0;
  bool reload = sim::Chance(1, 4);
  sim::Describe("%s n=%zu batch=%zu down=%zu reload=%d threads=%d", name, n, batch, down, reload, MaxThreads());
  SIM_CHECK(kzg.UnsafeSetup(n, tau), "set-up failed");
  SIM_CHECK(kzg.N() == n, "set-up of the wrong size");
  for (size_t i = 0; i < n; i += 1 + sim::Below(4)) SIM_CHECK(kzg.g1_powers_of_tau()[i] == G(fft::Pow(tau, i)).ToAffine(), "power %zu of the secret is wrong", i);
  SIM_CHECK(!kzg.Downsize(n), "downsizing to the same size accepted");
  if (down) {
    SIM_CHECK(kzg.Downsize(down), "downsizing refused");
    n = down;
    SIM_CHECK(kzg.N() == n, "downsized to the wrong size");
  }
  if (reload) kzg = Reload(kzg);
  std::unique_ptr<Domain> d = Domain::Create(n);
  SIM_CHECK(d->size() == n, "domain size");
  auto draw = [&]() {
    size_t len = sim::Chance(1, 3) ? n : sim::Below(n + 1);
    return vu::Vec<F>(len);
  };
  for (int round = 0; round < 2; ++round) {
    std::vector<F> c = draw();
    J want = G(fft::Horner(c, tau));
    C out;
    SIM_CHECK(kzg.Commit(c, &out), "commitment refused");
    Is(out, want, "commitment");
    std::vector<F> e = Dft(c, n, d->group_gen());
    SIM_CHECK(kzg.CommitLagrange(e, &out), "Lagrange commitment refused");
    Is(out, want, "Lagrange commitment");
    if (batch) {
      crypto::BatchCommitmentState st(true, batch);
      kzg.ResizeBatchCommitments(batch);
      std::vector<J> wants(batch);
      for (size_t k = 0; k < batch; ++k) {
        size_t at = round ? batch - 1 - k : k;
        std::vector<F> v = draw();
        wants[at] = G(fft::Horner(v, tau));
        bool ok = sim::Chance(1, 2) ? kzg.Commit(v, st, at) : kzg.CommitLagrange(Dft(v, n, d->group_gen()), st, at);
        SIM_CHECK(ok, "batch commitment refused");
      }
      std::vector<C> got = kzg.GetBatchCommitments(st);
      SIM_CHECK(!st.batch_mode && st.batch_count == 0, "batch mode is still on after the batch was fetched");
      SIM_CHECK(got.size() == batch, "%zu batch commitments instead of %zu", got.size(), batch);
      for (size_t k = 0; k < batch; ++k) Is(got[k], wants[k], "batch commitment");
      sim::Count("batch commitments", batch);
    }
  }
  std::vector<F> longer = vu::Vec<F>(n + sim::Range(1, 3));
  longer.back() = F::One();
  C out;
  SIM_CHECK(!kzg.Commit(longer, &out), "a vector longer than the set-up was committed to");
  sim::Count("polynomials committed", 4);
}
SIM_SCENARIO("C11", kzg_affine, sim::kOmp | sim::kSameOutcome, 3, 3) { Commitments<A>("affine"); }
SIM_SCENARIO("C11", kzg_xyzz, sim::kOmp | sim::kSameOutcome, 1, 3) { Commitments<bn254::G1PointXYZZ>("xyzz"); }
SIM_SCENARIO("C11", kzg_jacobian, sim::kOmp | sim::kSameOutcome, 1, 3) { Commitments<J>("jacobian"); }

using Writer = zk::plonk::halo2::Blake2bWriter<A>;
using Reader = zk::plonk::halo2::Blake2bReader<A>;
struct Claim { size_t poly; F point, value; };
struct World {
  std::vector<std::vector<F>> coeffs;
  std::vector<Poly> polys;
  std::vector<A> coms;
  std::vector<Claim> claims;
  std::vector<F> context;  // absorbed before the proof starts
  std::vector<crypto::PolynomialOpening<Poly>> Prover() const {
    std::vector<crypto::PolynomialOpening<Poly>> r;
    for (const Claim& c : claims) r.emplace_back(base::Ref<const Poly>(&polys[c.poly]), c.point, c.value);
    return r;
  }
  std::vector<crypto::PolynomialOpening<Poly, A>> Verifier() const {
    std::vector<crypto::PolynomialOpening<Poly, A>> r;
    for (const Claim& c : claims) r.emplace_back(base::Ref<const A>(&coms[c.poly]), c.point, c.value);
    return r;
  }
  bool True() const {
    for (const Claim& c : claims)
      if (!(fft::Horner(coeffs[c.poly], c.point) == c.value)) return false;
    return true;
  }
};
template <typename Pcs>
std::vector<uint8_t> Prove(Pcs& pcs, const World& w) {
  Writer writer((base::Uint8VectorBuffer()));
  for (const F& f : w.context) SIM_REQUIRE(writer.WriteToTranscript(f));
  auto o = w.Prover();
  SIM_CHECK(pcs.CreateOpeningProof(o, &writer), "no opening proof was made");
  SIM_CHECK(writer.buffer().Done() || writer.buffer().buffer_offset() <= writer.buffer().buffer_len(), "proof buffer");
  const uint8_t* p = (const uint8_t*)writer.buffer().buffer();
  return std::vector<uint8_t>(p, p + writer.buffer().buffer_offset());
}
template <typename Pcs>
bool Verify(const Pcs& pcs, const World& w, std::vector<uint8_t> proof) {
  Reader reader(base::ReadOnlyBuffer(proof.data(), proof.size()));
  for (const F& f : w.context) SIM_REQUIRE(reader.WriteToTranscript(f));
  auto o = w.Verifier();
  return pcs.VerifyOpeningProof(o, &reader);
}
F NotZero() { for (;;) { F f = sim::Chance(1, 2) ? vu::Uni<F>() : vu::NonZero<F>(); if (!f.IsZero()) return f; } }
std::vector<uint8_t> PointBytes(const A& a) {
  Writer w((base::Uint8VectorBuffer()));
  SIM_REQUIRE(w.WriteToProof(a));
  const uint8_t* p = (const uint8_t*)w.buffer().buffer();
  return std::vector<uint8_t>(p, p + w.buffer().buffer_offset());
}
template <typename Pcs>
void Openings(const char* name) {
  size_t n = (size_t)1 << sim::Range(2, 5);
  F tau = Tau(n);
  Pcs pcs(crypto::KZG<A, kMax, A>{});
  SIM_CHECK(pcs.UnsafeSetup(n, tau), "set-up failed");
  if (sim::Chance(1, 3)) { pcs = Reload(pcs); sim::Count("reloaded parameters"); }
  size_t np = sim::Range(1, 6), nx = sim::Range(1, 5);
  World w;
  for (size_t i = 0; i < np; ++i) {
    size_t len = sim::Chance(1, 3) ? n : sim::Below(n + 1);
    w.coeffs.push_back(vu::Vec<F>(len));
    if (i && sim::Chance(1, 12)) w.coeffs.back() = w.coeffs[i - 1];  // the same polynomial twice
    w.polys.push_back(Make(w.coeffs.back()));
  }
  bool batch = sim::Chance(1, 2);
  if (batch) {
    pcs.SetBatchMode(np);
    for (size_t i = 0; i < np; ++i) SIM_CHECK(pcs.Commit(w.polys[i], i), "batch commitment refused");
    w.coms = pcs.GetBatchCommitments();
  } else {
    w.coms.resize(np);
    for (size_t i = 0; i < np; ++i) SIM_CHECK(pcs.Commit(w.polys[i], &w.coms[i]), "commitment refused");
  }
  SIM_CHECK(w.coms.size() == np, "number of commitments");
  for (size_t i = 0; i < np; ++i) Is(w.coms[i], G(fft::Horner(w.coeffs[i], tau)), "commitment");
  std::vector<F> xs;
  F root;
  SIM_REQUIRE(F::GetRootOfUnity(n, &root));
  while (xs.size() < nx) {
    F x;
    switch (sim::Below(6)) {
      case 0: x = fft::Pow(root, sim::Below(n)); break;
      case 1: x = vu::Elem<F>(); break;
      case 2: x = tau; break;
      case 3: x = xs.empty() ? vu::Uni<F>() : xs.back() * root; break;
      default: x = vu::Uni<F>();
    }
    if (std::find(xs.begin(), xs.end(), x) == xs.end()) xs.push_back(x);
    else if (sim::Chance(1, 3)) --nx;
    if (nx == 0) { xs.push_back(vu::Uni<F>()); break; }
  }
  nx = xs.size();
  // Which polynomial is opened where: everything, random, or all in the same way.
  int style = (int)sim::Below(4);
  for (size_t i = 0; i < np; ++i)
    for (size_t j = 0; j < nx; ++j) {
      bool take = style == 0 || (style == 1 ? sim::Chance(1, 2) : style == 2 ? j == i % nx : j <= i);
      if (take) w.claims.push_back({i, xs[j], fft::Horner(w.coeffs[i], xs[j])});
    }
  if (w.claims.empty()) w.claims.push_back({0, xs[0], fft::Horner(w.coeffs[0], xs[0])});
  if (sim::Chance(1, 2)) for (size_t i = w.claims.size(); i-- > 1;) std::swap(w.claims[i], w.claims[sim::Below(i + 1)]);
  for (size_t i = sim::Below(4) + 1; i-- > 0;) w.context.push_back(vu::Uni<F>());
  sim::Describe("%s n=%zu polynomials=%zu points=%zu claims=%zu style=%d batch=%d threads=%d", name, n, np, nx, w.claims.size(), style, batch, MaxThreads());
  std::vector<uint8_t> proof = Prove(pcs, w);
  sim::Outcome(proof.data(), proof.size());
  SIM_CHECK(Verify(pcs, w, proof), "an honest opening was rejected");
  sim::Count("openings verified");
  // Whoever opens at the secret point itself learns nothing the proof could be bound to.
  if (std::find(xs.begin(), xs.end(), tau) != xs.end()) return;
  // Corruptions of the claims and of the proof.
  for (int t = 0; t < 3; ++t) {
  World bad = w;
  std::vector<uint8_t> p = proof;
  const char* what = "";
  size_t c = sim::Below(w.claims.size()), c2 = sim::Below(w.claims.size());
  F delta = NotZero();
  bool false_claim_proof = false;
  if (w.claims.size() > 1 && sim::Chance(1, 2)) {  // claims that take the same place at two points
    std::map<std::string, size_t> first;
    std::vector<std::pair<size_t, size_t>> pairs;
    for (size_t i = 0; i < w.claims.size(); ++i) {
      size_t rank = first[w.claims[i].point.ToString()]++;
      pairs.push_back({rank, i});
    }
    std::vector<size_t> same;
    for (auto& [rank, i] : pairs) if (rank == pairs[c].first) same.push_back(i);
    c2 = same[sim::Below(same.size())];
  }
  switch (sim::Below(13)) {
    case 0: bad.claims[c].value = bad.claims[c].value + delta; what = "a changed value"; break;
    case 1:
      bad.claims[c].value = bad.claims[c].value + delta;
      bad.claims[c2].value = bad.claims[c2].value - delta;
      what = "two values changed by opposite amounts";
      break;
    case 2: std::swap(bad.claims[c].value, bad.claims[c2].value); what = "swapped values"; break;
    case 3: {
      F x = sim::Chance(1, 2) ? xs[sim::Below(nx)] : bad.claims[c].point + delta;
      for (const Claim& o : bad.claims) if (o.poly == bad.claims[c].poly && o.point == x) x = bad.claims[c].point;
      bad.claims[c].point = x;
      what = "a changed point";
      break;
    }
    case 4: {
      size_t k = w.claims[c].poly;
      bad.coms[k] = (bad.coms[k] + G(delta)).ToAffine();
      what = "a changed commitment";
      break;
    }
    case 5: {
      size_t k = w.claims[c].poly, l = w.claims[c2].poly;
      if (k == l) { what = ""; break; }
      J g = G(delta);
      bad.coms[k] = (bad.coms[k] + g).ToAffine();
      bad.coms[l] = (bad.coms[l] - g).ToAffine();
      what = "two commitments changed by opposite amounts";
      break;
    }
    case 6: {  // another point of the curve in the proof
      SIM_CHECK(p.size() % 32 == 0 && !p.empty(), "proof size");
      size_t at = sim::Below(p.size() / 32);
      std::vector<uint8_t> b = PointBytes(sim::Chance(1, 4) ? A::Zero() : G(delta).ToAffine());
      std::copy(b.begin(), b.end(), p.begin() + at * 32);
      if (p != proof) what = "a changed proof element";
      break;
    }
    case 7: {
      size_t at = sim::Below(p.size());
      p[at] ^= (uint8_t)(1u << sim::Below(8));
      {  // infinity has two encodings (the sign bit is not looked at): that is no change
        bool zero = true;
        for (size_t i = at / 32 * 32; i < at / 32 * 32 + 32; ++i) zero = zero && (p[i] == 0 || (i % 32 == 31 && p[i] == 0x80));
        if (zero) break;
      }
      what = "a flipped proof bit";
      break;
    }
    case 8: p.resize(sim::Below(p.size())); what = "a truncated proof"; break;
    case 9: {  // proofs made for false claims
      bad.claims[c].value = bad.claims[c].value + delta;
      if (c2 != c && sim::Chance(1, 2)) bad.claims[c2].value = bad.claims[c2].value - delta;
      p = Prove(pcs, bad);
      false_claim_proof = true;
      what = "a proof of a false value";
      break;
    }
    case 10: case 11: {
      if (w.claims.size() < 2) break;
      if (c == c2) c2 = (c + 1) % w.claims.size();
      bad.claims[c].value = bad.claims[c].value + delta;
      bad.claims[c2].value = bad.claims[c2].value - delta;
      what = "two values changed by opposite amounts";
      break;
    }
    default: {
      if (p.size() >= 64) {  // swap two elements
        std::vector<uint8_t> t(p.begin(), p.begin() + 32);
        std::copy(p.begin() + 32, p.begin() + 64, p.begin());
        std::copy(t.begin(), t.end(), p.begin() + 32);
      }
      if (p != proof) what = "swapped proof elements";
    }
  }
  if (!*what) continue;
  if (p == proof && bad.True() && bad.coms == w.coms) continue;  // nothing was changed
  if (false_claim_proof && bad.True()) continue;
  sim::Count("corruptions tried");
  bool accepted = sim::AcceptsOrAborts([&] { return Verify(pcs, bad, p); });
  SIM_CHECK(!accepted, "%s was accepted", what);
  }
}
SIM_SCENARIO("C11", gwc, sim::kOmp | sim::kSameOutcome, 4, 3) { Openings<crypto::GWC<Curve, kMax, A>>("gwc"); }
SIM_SCENARIO("C11", shplonk, sim::kOmp | sim::kSameOutcome, 4, 3) { Openings<crypto::SHPlonk<Curve, kMax, A>>("shplonk"); }

// Pedersen: h*r + sum g_i*v_i.
template <typename C>
void PedersenCommit(const char* name) {
  using Ped = crypto::Pedersen<A, 64, C>;
  size_t n = vu::Size(24);
  F hl = vu::Elem<F>();
  std::vector<F> gl(n);
  std::vector<A> g(n);
  for (size_t i = 0; i < n; ++i) {
    gl[i] = i && sim::Chance(1, 8) ? F::Zero() - gl[i - 1] : vu::Elem<F>();
    g[i] = G(gl[i]).ToAffine();
  }
  bool reload = sim::Chance(1, 4);
  size_t batch = sim::Chance(1, 3) ? sim::Range(1, 4) : 0;
  sim::Describe("%s n=%zu batch=%zu threads=%d", name, n, batch, MaxThreads());
  Ped ped(G(hl).ToAffine(), g);
  if (reload) ped = Reload(ped);
  SIM_CHECK(ped.N() == n, "size");
  auto dot = [&](const std::vector<F>& v) { F s = F::Zero(); for (size_t i = 0; i < n; ++i) s = s + v[i] * gl[i]; return s; };
  std::vector<F> v = vu::Vec<F>(n);
  F r = vu::Elem<F>();
  C out;
  SIM_CHECK(ped.Commit(v, r, &out), "commitment refused");
  Is(out, G(hl * r + dot(v)), "Pedersen commitment");
  if (sim::Chance(1, 4)) {
    std::vector<F> w = v;
    w.push_back(F::One());
    SIM_CHECK(!ped.Commit(w, r, &out), "a vector longer than the generators was committed to");
  }
  if (!batch) return;
  ped.SetBatchMode(batch);
  std::vector<F> sums(batch), rs(batch);
  for (size_t k = 0; k < batch; ++k) {
    v = vu::Vec<F>(n);
    rs[k] = vu::Elem<F>();
    sums[k] = dot(v);
    SIM_CHECK(ped.Commit(v, rs[k], k), "batch commitment refused");
  }
  std::vector<C> got = ped.GetBatchCommitments();
  SIM_CHECK(got.size() == batch, "number of batch commitments");
  SIM_CHECK(!ped.GetBatchMode(), "batch mode is still on");
  bool blinded = true;
  for (size_t k = 0; k < batch; ++k) {
    if (Aff(got[k]) == G(hl * rs[k] + sums[k]).ToAffine()) continue;
    SIM_CHECK(Aff(got[k]) == G(sums[k]).ToAffine(), "Pedersen batch commitment %zu is wrong", k);
    blinded = false;
  }
  SIM_CHECK(blinded, "Pedersen batch commitment leaves out the blinding term");
}
SIM_SCENARIO("C11", pedersen, sim::kOmp | sim::kSameOutcome, 1, 3) { PedersenCommit<A>("affine"); }
SIM_SCENARIO("C11", pedersen_xyzz, sim::kOmp | sim::kSameOutcome, 1, 3) { PedersenCommit<bn254::G1PointXYZZ>("xyzz"); }
}  // namespace
