// C29: objects that are only read can be shared by any number of threads.
//
// Two equal objects are made. What every operation returns is first computed on one of them by the main
// thread alone; then several threads run the operations on the other one, which nobody used before.
#include <functional>
#include <memory>
#include <string>
#include <thread>

#include "r1cs.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/proving_key.h"
#include "tachyon/zk/r1cs/groth16/verify.h"

SIM_WARMUP(c29) {
  Curve::Init();
  math::BabyBear::Init();
  math::bn384_small_two_adicity::Fq::Init();
  math::PackedFieldTraits<math::BabyBear>::PackedField::Init();
  LOG(ERROR) << "warm up";
}
namespace {
using math::BabyBear;
using Mixed = math::bn384_small_two_adicity::Fq;
template <typename T>
void Put(std::string* s, const std::vector<T>& v) {
  s->append(std::to_string(v.size()) + ":");
  s->append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
template <typename T>
void PutField(std::string* s, const T& v) { s->append(reinterpret_cast<const char*>(&v), sizeof(T)); }

template <typename Obj>
struct Task {
  const char* name;
  std::function<std::string(const Obj&)> run;
};
template <typename Obj>
void Share(const Obj& twin, const Obj& shared, const std::vector<Task<Obj>>& ops, const char* what) {
  unsigned nt = static_cast<unsigned>(sim::Range(2, 4));
  bool same = sim::Chance(1, 3);  // all do the same
  size_t common = sim::Below(ops.size());
  std::vector<std::vector<size_t>> plan(nt);
  std::string desc;
  for (auto& p : plan) {
    for (size_t k = sim::Range(1, 2); k-- > 0;) p.push_back(same ? common : sim::Below(ops.size()));
    for (size_t o : p) { desc += ops[o].name; desc += ' '; }
    desc += "| ";
  }
  sim::Describe("%s, %u threads: %s", what, nt, desc.c_str());
  std::vector<std::string> want(ops.size());
  for (size_t o = 0; o < ops.size(); ++o) {
    bool used = false;
    for (auto& p : plan) for (size_t x : p) used = used || x == o;
    if (used) want[o] = ops[o].run(twin);
  }
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      for (size_t o : plan[t]) SIM_CHECK(ops[o].run(shared) == want[o], "%s: %s gives another result when %u threads share the object", what, ops[o].name, nt);
    });
  for (auto& t : ts) t.join();
  for (size_t o : plan[0]) SIM_CHECK(ops[o].run(shared) == want[o], "%s: %s gives another result after threads shared the object", what, ops[o].name);
  sim::Count("shared objects");
}

constexpr size_t kDeg = 255;
template <typename T> using Dense = math::UnivariateDensePolynomial<T, kDeg>;
template <typename T> using Sparse = math::UnivariateSparsePolynomial<T, kDeg>;
template <typename T> using Evals = math::UnivariateEvaluations<T, kDeg>;
template <typename T> using Dom = math::UnivariateEvaluationDomain<T, kDeg>;
template <typename T>
Dense<T> MakeDense(const std::vector<T>& v) { return Dense<T>(typename Dense<T>::Coefficients(std::vector<T>(v), true)); }
template <typename T>
Sparse<T> MakeSparse(const std::vector<T>& v) {
  std::vector<math::UnivariateTerm<T>> t;
  for (size_t i = 0; i < v.size(); ++i) if (!v[i].IsZero()) t.push_back({i, v[i]});
  return Sparse<T>(typename Sparse<T>::Coefficients(std::move(t)));
}
template <typename T>
void Put(std::string* s, const Dense<T>& p) { Put(s, p.coefficients().coefficients()); }

template <typename T>
void Polynomials(const char* field) {
  std::vector<T> v = vu::Vec<T>(vu::Size(60)), u = vu::Vec<T>(sim::Range(1, 30));
  T x = vu::Elem<T>(), r = vu::Elem<T>();
  if (sim::Chance(2, 3)) {
    Dense<T> a = MakeDense(v), b = MakeDense(v), o = MakeDense(u);
    if (o.IsZero()) o = Dense<T>::One();
    std::vector<Task<Dense<T>>> ops = {
        {"evaluate", [&](const Dense<T>& p) { std::string s; PutField(&s, p.Evaluate(x)); return s; }},
        {"add", [&](const Dense<T>& p) { std::string s; Put(&s, p + o); return s; }},
        {"subtract", [&](const Dense<T>& p) { std::string s; Put(&s, p - o); return s; }},
        {"multiply", [&](const Dense<T>& p) { std::string s; Put(&s, p * o); return s; }},
        {"divide", [&](const Dense<T>& p) { std::string s; Put(&s, *(p / o)); Put(&s, *(p % o)); return s; }},
        {"square", [&](const Dense<T>& p) { std::string s; Put(&s, p * p); return s; }},
        {"negate", [&](const Dense<T>& p) { std::string s; Put(&s, -p); return s; }},
        {"fold", [&](const Dense<T>& p) { std::string s; Put(&s, p.Fold(r)); return s; }},
        {"scale", [&](const Dense<T>& p) { std::string s; Put(&s, p * r); return s; }},
        {"query", [&](const Dense<T>& p) { return std::to_string(p.Degree()) + (p == p ? "=" : "!") + (p == o ? "=" : "!") + p.ToString(); }},
        {"copy", [&](const Dense<T>& p) { Dense<T> q = p; std::string s; Put(&s, q); return s; }},
    };
    Share(a, b, ops, field);
  } else {
    Sparse<T> a = MakeSparse(v), b = MakeSparse(v), o = MakeSparse(u);
    std::vector<Task<Sparse<T>>> ops = {
        {"evaluate", [&](const Sparse<T>& p) { std::string s; PutField(&s, p.Evaluate(x)); return s; }},
        {"add", [&](const Sparse<T>& p) { return (p + o).ToString(); }},
        {"subtract", [&](const Sparse<T>& p) { return (p - o).ToString(); }},
        {"multiply", [&](const Sparse<T>& p) { return (p * o).ToString(); }},
        {"to dense", [&](const Sparse<T>& p) { std::string s; Put(&s, p.ToDense()); return s; }},
        {"query", [&](const Sparse<T>& p) { std::string s = std::to_string(p.Degree()) + (p == o ? "=" : "!"); PutField(&s, p[3]); return s; }},
    };
    Share(a, b, ops, field);
  }
}
template <typename T, template <typename, size_t> class Kind>
void Domains(const char* field) {
  size_t n = size_t{1} << sim::Below(7);
  if constexpr (std::is_same_v<T, Mixed>) n = sim::Pick<size_t>({1, 2, 3, 6, 9, 12, 18, 36});
  std::vector<T> v = vu::Vec<T>(sim::Range(1, n)), e = vu::Vec<T>(n);
  T x = vu::Uni<T>(), off = vu::NonZero<T>();
  bool coset = sim::Chance(1, 2);
  auto make = [&]() -> std::unique_ptr<Dom<T>> {
    std::unique_ptr<Dom<T>> d = Kind<T, kDeg>::Create(n);
    if (coset) return d->GetCoset(off);
    return d;
  };
  Dense<T> p = MakeDense(v);
  Evals<T> ev{std::vector<T>(e)};
  using O = Task<std::unique_ptr<Dom<T>>>;
  using D = const std::unique_ptr<Dom<T>>&;
  std::vector<O> ops = {
      {"transform", [&](D d) { std::string s; Put(&s, d->FFT(p).evaluations()); return s; }},
      {"inverse", [&](D d) { std::string s; Put(&s, d->IFFT(ev)); return s; }},
      {"elements", [&](D d) { std::string s; Put(&s, d->GetElements()); PutField(&s, d->GetElement(n / 2)); return s; }},
      {"lagrange", [&](D d) { std::string s; Put(&s, d->EvaluateAllLagrangeCoefficients(x)); return s; }},
      {"vanishing", [&](D d) { std::string s; PutField(&s, d->EvaluateVanishingPolynomial(x)); return s; }},
      {"coset", [&](D d) { std::string s; Put(&s, d->GetCoset(off + off)->FFT(p).evaluations()); return s; }},
      {"clone", [&](D d) { std::string s; Put(&s, d->GetCoset(off)->IFFT(ev)); return s; }},
  };
  auto a = make(), b = make();
  Share(a, b, ops, field);
}
template <typename T>
void Multilinear(const char* field) {
  using M = math::MultilinearExtension<math::MultilinearDenseEvaluations<T, 7>>;
  size_t vars = sim::Range(1, 6);
  std::vector<T> v = vu::Vec<T>(size_t{1} << vars), w = vu::Vec<T>(size_t{1} << vars), pt = vu::Vec<T>(vars);
  std::vector<T> part(pt.begin(), pt.begin() + sim::Range(1, vars));
  auto make = [](const std::vector<T>& v) { return M(math::MultilinearDenseEvaluations<T, 7>(std::vector<T>(v))); };
  M a = make(v), b = make(v), o = make(w);
  std::vector<Task<M>> ops = {
      {"evaluate", [&](const M& m) { std::string s; PutField(&s, m.Evaluate(pt)); return s; }},
      {"fix variables", [&](const M& m) { std::string s; Put(&s, m.evaluations().FixVariables(part).evaluations()); return s; }},
      {"add", [&](const M& m) { std::string s; Put(&s, (m + o).evaluations().evaluations()); return s; }},
      {"multiply", [&](const M& m) { std::string s; Put(&s, (m * o).evaluations().evaluations()); return s; }},
      {"degree", [&](const M& m) { return std::to_string(m.Degree()) + (m == o ? "=" : "!"); }},
  };
  Share(a, b, ops, field);
}
template <typename T>
void Matrices(const char* field) {
  size_t r = sim::Range(1, 12), c = sim::Range(1, 12), k = sim::Range(1, 6);
  std::vector<T> v = vu::Vec<T>(r * c), w = vu::Vec<T>(c * k), x = vu::Vec<T>(c);
  auto make = [](size_t r, size_t c, const std::vector<T>& v) {
    math::Matrix<T> m(r, c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = v[i * c + j];
    return m;
  };
  auto put = [](const math::Matrix<T>& m) {
    std::string s = std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ":";
    for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) PutField(&s, m(i, j));
    return s;
  };
  math::Matrix<T> a = make(r, c, v), b = make(r, c, v), o = make(c, k, w), vec = make(c, 1, x);
  std::vector<Task<math::Matrix<T>>> ops = {
      {"matrix product", [&](const math::Matrix<T>& m) { return put(math::MulMatMat(m, o)); }},
      {"vector product", [&](const math::Matrix<T>& m) { math::Vector<T> y = vec.col(0); return put(math::MulMatVec(m, y)); }},
      {"serial product", [&](const math::Matrix<T>& m) { return put(math::MulMatMatSerial(m, o)); }},
      {"transpose", [&](const math::Matrix<T>& m) { return put(m.transpose()); }},
  };
  Share(a, b, ops, field);
}

// --- hashers ---
using P2 = crypto::Poseidon2Sponge<crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, BabyBear, 15, 7>>;
void Hashers() {
  std::vector<BabyBear> in = vu::Vec<BabyBear>(sim::Range(1, 40));
  std::array<BabyBear, 8> l, r;
  for (size_t i = 0; i < 8; ++i) { l[i] = vu::Elem<BabyBear>(); r[i] = vu::Elem<BabyBear>(); }
  P2 a, b;
  auto state = [&] { crypto::SpongeState<P2::Params> s; for (size_t i = 0; i < 16; ++i) s[i] = in[i % in.size()]; return s; };
  using H = crypto::PaddingFreeSponge<P2, 8, 8>;
  using C = crypto::TruncatedPermutation<P2, 8, 2>;
  if (sim::Chance(1, 2)) {
    std::vector<Task<P2>> ops = {
        {"permute", [&](const P2& p) { auto s = state(); p.Permute(s); std::string o; for (size_t i = 0; i < 16; ++i) PutField(&o, s[i]); return o; }},
    };
    Share(a, b, ops, "Poseidon2");
    return;
  }
  if (sim::Chance(1, 2)) {
    H h1(a), h2(b);
    std::vector<Task<H>> ops = {{"hash", [&](const H& h) { std::string o; PutField(&o, h.Hash(in)); return o; }}};
    Share(h1, h2, ops, "padding-free sponge");
    return;
  }
  C c1(a), c2(b);
  std::vector<Task<C>> ops = {
      {"compress", [&](const C& c) { std::string o; PutField(&o, c.Compress(std::vector<std::array<BabyBear, 8>>{l, r})); return o; }},
      {"compress the other way", [&](const C& c) { std::string o; PutField(&o, c.Compress(std::vector<std::array<BabyBear, 8>>{r, l})); return o; }},
  };
  Share(c1, c2, ops, "truncated permutation");
}

// --- commitments ---
using A = G1;
F Tau() { F t; do { t = vu::Uni<F>(); } while (t.IsZero()); return t; }
void Kzg() {
  using K = crypto::KZG<A, kMax, A>;
  size_t n = size_t{1} << sim::Below(5);
  F tau = Tau();
  std::vector<F> v = vu::Vec<F>(sim::Below(n + 1)), u = vu::Vec<F>(n);
  K a, b;
  SIM_REQUIRE(a.UnsafeSetup(n, tau) && b.UnsafeSetup(n, tau));
  std::vector<Task<K>> ops = {
      {"commit", [&](const K& k) { A o; SIM_CHECK(k.Commit(v, &o), "commitment refused"); return o.ToString(); }},
      {"commit Lagrange", [&](const K& k) { A o; SIM_CHECK(k.CommitLagrange(u, &o), "Lagrange commitment refused"); return o.ToString(); }},
      {"write", [&](const K& k) {
         base::Uint8VectorBuffer w;
         SIM_CHECK(w.Grow(base::EstimateSize(k)) && w.Write(k), "not written");
         return std::string(reinterpret_cast<const char*>(w.buffer()), w.buffer_offset());
       }},
  };
  Share(a, b, ops, "KZG parameters");
}
void Ped() {
  using P = crypto::Pedersen<A, 64, J1>;
  size_t n = sim::Range(1, 16);
  J1 h = J1::Generator() * Tau();
  std::vector<A> g;
  for (size_t i = 0; i < n; ++i) g.push_back((J1::Generator() * vu::NonZero<F>()).ToAffine());
  std::vector<F> v = vu::Vec<F>(n), u = vu::Vec<F>(n);
  F r = vu::Elem<F>();
  P a(h.ToAffine(), g), b(h.ToAffine(), g);
  std::vector<Task<P>> ops = {
      {"commit", [&](const P& k) { J1 o; SIM_CHECK(k.Commit(v, r, &o), "commitment refused"); return o.ToAffine().ToString(); }},
      {"commit another", [&](const P& k) { J1 o; SIM_CHECK(k.Commit(u, r, &o), "commitment refused"); return o.ToAffine().ToString(); }},
  };
  Share(a, b, ops, "Pedersen parameters");
}
template <typename Pcs>
void Openings(const char* what) {
  using Poly = typename Pcs::Poly;
  using Writer = zk::plonk::halo2::Blake2bWriter<A>;
  using Reader = zk::plonk::halo2::Blake2bReader<A>;
  size_t n = size_t{1} << sim::Range(1, 4), np = sim::Range(1, 3);
  F tau = Tau();
  Pcs a, b;
  SIM_REQUIRE(a.UnsafeSetup(n, tau) && b.UnsafeSetup(n, tau));
  std::vector<Poly> ps;
  std::vector<A> cs(np);
  std::vector<F> xs, ys;
  for (size_t i = 0; i < np; ++i) {
    ps.push_back(Poly(typename Poly::Coefficients(vu::Vec<F>(n), true)));
    SIM_REQUIRE(a.Commit(ps[i], &cs[i]));
    xs.push_back(i && sim::Chance(1, 2) ? xs[0] : vu::Uni<F>());
    ys.push_back(ps[i].Evaluate(xs[i]));
  }
  std::vector<crypto::PolynomialOpening<Poly>> po;
  for (size_t i = 0; i < np; ++i) po.emplace_back(base::Ref<const Poly>(&ps[i]), xs[i], ys[i]);
  Writer w((base::Uint8VectorBuffer()));
  SIM_REQUIRE(a.CreateOpeningProof(po, &w));
  const uint8_t* pb = static_cast<const uint8_t*>(w.buffer().buffer());
  std::vector<uint8_t> proof(pb, pb + w.buffer().buffer_offset());
  auto verify = [&](const Pcs& k, bool lie) {
    std::vector<uint8_t> mine = proof;
    Reader r(base::ReadOnlyBuffer(mine.data(), mine.size()));
    std::vector<crypto::PolynomialOpening<Poly, A>> o;
    for (size_t i = 0; i < np; ++i) o.emplace_back(base::Ref<const A>(&cs[i]), xs[i], lie && !i ? ys[i] + F::One() : ys[i]);
    return std::string(k.VerifyOpeningProof(o, &r) ? "accepted" : "refused");
  };
  std::vector<Task<Pcs>> ops = {
      {"verify", [&](const Pcs& k) { return verify(k, false); }},
      {"verify a lie", [&](const Pcs& k) { return verify(k, true); }},
  };
  SIM_CHECK(ops[0].run(a) == "accepted" && ops[1].run(a) == "refused", "%s: verification of one opening by one thread", what);
  Share(a, b, ops, what);
}

// --- Groth16 ---
void Groth16() {
  Recipe r = Recipe::Random(sim::Pick<size_t>({1, 2, 4, 8}), false);
  if (!r.Sat()) return;
  F al = vu::Uni<F>(), be = vu::Uni<F>(), ga = vu::Uni<F>(), de = vu::Uni<F>();
  zk::r1cs::groth16::ToxicWaste<Curve> toxic(al, be, ga, de, F::Zero(), G1::Generator(), G2::Generator());
  using Key = zk::r1cs::groth16::ProvingKey<Curve>;
  Key a;
  SIM_REQUIRE((a.Load<kMax, QAP>(toxic, r)));
  F rr = vu::Elem<F>(), ss = vu::Elem<F>();
  auto show = [](const groth16::Proof<Curve>& p) { return p.a().ToString() + p.b().ToString() + p.c().ToString(); };
  if (sim::Chance(1, 2)) {
    Key b = a;
    std::vector<Task<Key>> ops = {
        {"prove", [&](const Key& k) { return show(groth16::CreateProofWithReduction<kMax, QAP>(r, k, rr, ss)); }},
        {"prove without hiding", [&](const Key& k) { return show(groth16::CreateProofWithReductionNoZK<kMax, QAP>(r, k)); }},
    };
    Share(a, b, ops, "Groth16 proving key");
    return;
  }
  auto proof = groth16::CreateProofWithReduction<kMax, QAP>(r, a, rr, ss);
  std::vector<F> pub = r.Public(), lie = pub;
  if (!lie.empty()) lie[0] += F::One();
  using Prep = groth16::PreparedVerifyingKey<Curve>;
  Prep p1 = a.verifying_key().ToPreparedVerifyingKey(), p2 = a.verifying_key().ToPreparedVerifyingKey();
  std::vector<Task<Prep>> ops = {
      {"verify", [&](const Prep& k) { return std::string(groth16::VerifyProof(k, proof, pub) ? "accepted" : "refused"); }},
      {"verify other inputs", [&](const Prep& k) { return std::string(groth16::VerifyProof(k, proof, lie) ? "accepted" : "refused"); }},
      {"re-randomise and verify", [&](const Prep& k) { return std::string(groth16::VerifyProof(k, groth16::ReRandomizeProof(k.verifying_key(), proof), pub) ? "accepted" : "refused"); }},
  };
  SIM_CHECK(ops[0].run(p1) == "accepted", "an honest proof is refused");
  Share(p1, p2, ops, "Groth16 verifying key");
}

SIM_SCENARIO("C29", polynomials, sim::kOmp | sim::kMt, 3, 6) { if (sim::Chance(1, 2)) Polynomials<F>("bn254 polynomial"); else Polynomials<BabyBear>("BabyBear polynomial"); }
SIM_SCENARIO("C29", domains, sim::kOmp | sim::kMt, 3, 6) { 
  switch (sim::Below(3)) {
    case 0: return Domains<F, math::Radix2EvaluationDomain>("bn254 domain");
    case 1: return Domains<BabyBear, math::Radix2EvaluationDomain>("BabyBear domain");
    default: return Domains<Mixed, math::MixedRadixEvaluationDomain>("mixed-radix domain");
  }
 }
SIM_SCENARIO("C29", multilinear, sim::kOmp | sim::kMt, 2, 6) { if (sim::Chance(1, 2)) Multilinear<F>("bn254 multilinear extension"); else Multilinear<BabyBear>("BabyBear multilinear extension"); }
SIM_SCENARIO("C29", matrices, sim::kOmp | sim::kMt, 2, 6) { if (sim::Chance(1, 2)) Matrices<F>("bn254 matrix"); else Matrices<BabyBear>("BabyBear matrix"); }
SIM_SCENARIO("C29", hashers, sim::kOmp | sim::kMt, 2, 6) { Hashers(); }
SIM_SCENARIO("C29", kzg, sim::kOmp | sim::kMt, 2, 4) { Kzg(); }
SIM_SCENARIO("C29", pedersen, sim::kOmp | sim::kMt, 1, 4) { Ped(); }
SIM_SCENARIO("C29", openings, sim::kOmp | sim::kMt, 1, 3) {
  if (sim::Chance(1, 2)) Openings<crypto::GWC<Curve, kMax, A>>("GWC parameters");
  else Openings<crypto::SHPlonk<Curve, kMax, A>>("SHPlonk parameters");
}
SIM_SCENARIO("C29", groth16_keys, sim::kOmp | sim::kMt, 1, 3) { Groth16(); }
}  // namespace
