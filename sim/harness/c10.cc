// C10: FRI commitments. C28: two-adic cosets.
#include <array>
#include <memory>
#include "fft.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/commitments/fri/simple_fri.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

using namespace tachyon;
using namespace tachyon::crypto;
using F = math::BabyBear;
using PF = math::PackedBabyBear;
using F4 = math::BabyBear4;
using Fr = math::bn254::Fr;
SIM_WARMUP(fields) {
  F::Init();
  PF::Init();
  F4::Init();
  math::PackedBabyBear4::Init();
  Fr::Init();
  LOG(ERROR) << "warm up";
}
namespace {
constexpr size_t kChunk = 8;
using P2 = Poseidon2Sponge<Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, F, 15, 7>>;
using PP2 = Poseidon2Sponge<Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, PF, 15, 7>>;
using H = PaddingFreeSponge<P2, 8, kChunk>;
using PH = PaddingFreeSponge<PP2, 8, kChunk>;
using C = TruncatedPermutation<P2, kChunk, 2>;
using PC = TruncatedPermutation<PP2, kChunk, 2>;
using MMCS = FieldMerkleTreeMMCS<F, H, PH, C, PC, kChunk>;
using ExtMMCS = ExtensionFieldMerkleTreeMMCS<F4, FieldMerkleTreeMMCS<F4, H, PH, C, PC, kChunk>>;
using Chal = DuplexChallenger<P2, 8>;
using PCS = TwoAdicFRI<F4, MMCS, ExtMMCS, Chal>;
using Coset = TwoAdicMultiplicativeCoset<F>;
size_t Rev(size_t i, size_t log) { size_t r = 0; for (size_t k = 0; k < log; ++k) r |= (i >> k & 1) << (log - 1 - k); return r; }
F Gen() { return F::FromMontgomery(F::Config::kSubgroupGenerator); }
F Root(size_t n) { F w; SIM_REQUIRE(F::GetRootOfUnity(n, &w)); return w; }
// The coefficients of the polynomial with these values on {w^i}.
std::vector<F> Coeffs(const std::vector<F>& v) {
  size_t n = v.size();
  F winv = *Root(n).Inverse(), ninv = *F(uint32_t(n)).Inverse();
  std::vector<F> c(n);
  F base = F::One();
  for (size_t k = 0; k < n; ++k, base *= winv) {
    F x = F::One(), s = F::Zero();
    for (size_t i = 0; i < n; ++i, x *= base) s += v[i] * x;
    c[k] = s * ninv;
  }
  return c;
}
template <typename E>
E At(const std::vector<F>& c, const E& x) {
  E s = E::Zero();
  for (size_t i = c.size(); i--;) s = s * x + E(c[i]);
  return s;
}
struct Case {
  uint32_t blowup, queries, pow;
  std::vector<std::vector<uint32_t>> logs;     // of each matrix of each round
  std::vector<std::vector<size_t>> cols;
  std::vector<std::vector<size_t>> npoints;
};
Case Make() {
  Case c;
  c.blowup = sim::Chance(1, 2) ? 1 : sim::Range(1, 3);
  c.queries = sim::Range(1, 6);
  c.pow = sim::Chance(1, 4) ? 0 : sim::Range(1, 6);
  size_t rounds = sim::Range(1, 3);
  uint32_t max = sim::Chance(1, 8) ? 1 : sim::Range(1, sim::Chance(1, 5) ? 6 : 4);
  for (size_t r = 0; r < rounds; ++r) {
    size_t n = sim::Range(1, 3);
    c.logs.emplace_back(); c.cols.emplace_back(); c.npoints.emplace_back();
    for (size_t i = 0; i < n; ++i) {
      c.logs[r].push_back(sim::Range(0, max));
      c.cols[r].push_back(sim::Range(1, sim::Chance(1, 4) ? 9 : 3));
      c.npoints[r].push_back(sim::Chance(1, 6) ? sim::Below(4) : 1);
    }
  }
  return c;
}
}  // namespace

SIM_SCENARIO("C10", two_adic, sim::kOmp | sim::kSameOutcome, 4, 4) {
  Case c = Make();
  std::string shape;
  for (size_t r = 0; r < c.logs.size(); ++r) { shape += "{"; for (size_t i = 0; i < c.logs[r].size(); ++i) shape += " 2^" + std::to_string(c.logs[r][i]) + "x" + std::to_string(c.cols[r][i]) + "@" + std::to_string(c.npoints[r][i]); shape += " }"; }
  sim::Describe("%s blow-up 2^%u, %u queries, %u bits of work", shape.c_str(), c.blowup, c.queries, c.pow);
  PCS pcs(MMCS{}, FRIConfig<ExtMMCS>{c.blowup, c.queries, c.pow, ExtMMCS{}});
  size_t rounds = c.logs.size();
  std::vector<std::vector<Coset>> domains(rounds);
  std::vector<MMCS::Commitment> commits(rounds);
  std::vector<std::unique_ptr<MMCS::ProverData>> data(rounds);
  std::vector<std::vector<std::vector<std::vector<F>>>> coeffs(rounds);  // round, matrix, column
  Chal challenger, pc, vc;
  uint32_t big = 0;
  for (size_t r = 0; r < rounds; ++r) {
    std::vector<math::RowMajorMatrix<F>> ms;
    for (size_t i = 0; i < c.logs[r].size(); ++i) {
      size_t n = size_t{1} << c.logs[r][i];
      big = std::max(big, c.logs[r][i]);
      domains[r].push_back(pcs.GetNaturalDomainForDegree(n));
      math::RowMajorMatrix<F> m(n, c.cols[r][i]);
      coeffs[r].emplace_back();
      for (size_t k = 0; k < c.cols[r][i]; ++k) {
        auto v = vu::Vec<F>(n);
        for (size_t j = 0; j < n; ++j) m(j, k) = v[j];
        coeffs[r][i].push_back(Coeffs(v));
      }
      ms.push_back(m);
    }
    data[r] = std::make_unique<MMCS::ProverData>();
    SIM_REQUIRE(pcs.Commit(domains[r], ms, &commits[r], data[r].get()));
    sim::OutcomeVal(commits[r]);
    // The low degree extension, in bit-reversed order.
    const auto& leaves = data[r]->leaves();
    SIM_REQUIRE(leaves.size() == c.logs[r].size());
    for (size_t i = 0; i < leaves.size(); ++i) {
      size_t log = c.logs[r][i] + c.blowup, n = size_t{1} << log;
      SIM_REQUIRE((size_t)leaves[i].rows() == n && (size_t)leaves[i].cols() == c.cols[r][i]);
      F w = Root(n);
      for (int t = 0; t < 4; ++t) {
        size_t row = sim::Below(n), col = sim::Below(c.cols[r][i]);
        F x = Gen() * vu::NaivePow(w, Rev(row, log));
        SIM_CHECK(leaves[i](row, col) == At(coeffs[r][i][col], x), "%s: extension of matrix %zu of round %zu at %zu,%zu", shape.c_str(), i, r, row, col);
      }
    }
  }
  pc.ObserveContainer2D(commits);
  F4 zeta = pc.SampleExtElement<F4>();
  std::vector<std::vector<std::vector<F4>>> points(rounds);
  for (size_t r = 0; r < rounds; ++r)
    for (size_t i = 0; i < c.logs[r].size(); ++i) {
      std::vector<F4> p;
      for (size_t k = 0; k < c.npoints[r][i]; ++k) p.push_back(k == 0 ? zeta : k == 1 ? zeta * F4(Root(size_t{1} << c.logs[r][i])) : zeta + F4(F(uint32_t(k))));
      points[r].push_back(p);
    }
  std::vector<std::vector<std::vector<std::vector<F4>>>> opened;
  FRIProof<PCS> proof;
  Chal pc0 = pc;
  SIM_REQUIRE(pcs.CreateOpeningProof(data, points, pc, &opened, &proof));
  SIM_REQUIRE(opened.size() == rounds);
  for (size_t r = 0; r < rounds; ++r) {
    SIM_REQUIRE(opened[r].size() == points[r].size());
    for (size_t i = 0; i < points[r].size(); ++i) {
      SIM_REQUIRE(opened[r][i].size() == points[r][i].size());
      for (size_t k = 0; k < points[r][i].size(); ++k) {
        SIM_REQUIRE(opened[r][i][k].size() == c.cols[r][i]);
        for (size_t col = 0; col < c.cols[r][i]; ++col)
          SIM_CHECK(opened[r][i][k][col] == At(coeffs[r][i][col], points[r][i][k]), "%s: value of column %zu of matrix %zu of round %zu at point %zu", shape.c_str(), col, i, r, k);
      }
    }
  }
  for (const auto& x : proof.commit_phase_commits) sim::OutcomeVal(x);
  sim::OutcomeVal(proof.final_eval);
  SIM_REQUIRE(proof.commit_phase_commits.size() == big && proof.query_proofs.size() == c.queries);
  auto verify = [&](const auto& commits, const auto& opened, const FRIProof<PCS>& proof) {
    Chal v;
    v.ObserveContainer2D(commits);
    v.SampleExtElement<F4>();
    return pcs.VerifyOpeningProof(commits, domains, points, opened, proof, v);
  };
  SIM_CHECK(verify(commits, opened, proof), "%s: the honest proof is rejected", shape.c_str());
  if (sim::Chance(1, 4)) {
    // The same proof for a verifier that demands more: one more query, or more work than was done.
    bool work = c.pow == 0 && sim::Chance(1, 2);
    PCS strict(MMCS{}, FRIConfig<ExtMMCS>{c.blowup, c.queries + !work, work ? 30 : c.pow, ExtMMCS{}});
    Chal v;
    v.ObserveContainer2D(commits);
    v.SampleExtElement<F4>();
    if (sim::AcceptsOrAborts([&] { return strict.VerifyOpeningProof(commits, domains, points, opened, proof, v); }))
      sim::Fail("%s: accepted with %s than the verifier demands", shape.c_str(), work ? "less work" : "fewer queries");
    sim::Count("weaker proofs refused");
    return;
  }
  // One thing changed.
  auto commits2 = commits;
  auto opened2 = opened;
  auto proof2 = proof;
  const char* what = "";
  auto& q = proof2.query_proofs[sim::Below(c.queries)];
  auto f = [](F& x) { x += vu::NonZero<F>(); };
  auto g = [](F4& x) { x += F4(vu::NonZero<F>()); };
  size_t r = sim::Below(rounds), i = sim::Below(points[r].size());
  bool certain = true;
  switch (sim::Below(12)) {
    case 0: what = "commitment"; f(commits2[r][sim::Below(kChunk)]); break;
    case 1:
      what = "opened value";
      if (points[r][i].empty()) return;
      g(opened2[r][i][sim::Below(points[r][i].size())][sim::Below(c.cols[r][i])]);
      break;
    case 2: { what = "value of a query"; auto& o = q.input_proof[r].opened_values[i]; f(o[sim::Below(o.size())]); break; }
    case 3: { what = "path of a query"; auto& o = q.input_proof[r].opening_proof; if (o.empty()) return; f(o[sim::Below(o.size())][sim::Below(kChunk)]); break; }
    case 4: { what = "sibling value"; auto& o = q.commit_phase_openings; if (o.empty()) return; g(o[sim::Below(o.size())].sibling_value); break; }
    case 5: {
      what = "path of a fold";
      auto& o = q.commit_phase_openings;
      if (o.empty()) return;
      auto& p = o[sim::Below(o.size())].opening_proof;
      if (p.empty()) return;
      f(p[sim::Below(p.size())][sim::Below(kChunk)]);
      break;
    }
    case 6: what = "final value"; g(proof2.final_eval); break;
    case 7: what = "work witness"; f(proof2.pow_witness); certain = (c.queries * (big + c.blowup)) + c.pow >= 40; break;
    case 8: what = "commitment of a fold"; if (proof2.commit_phase_commits.empty()) return; f(proof2.commit_phase_commits[sim::Below(big)][sim::Below(kChunk)]); break;
    case 9: what = "number of queries (fewer)"; proof2.query_proofs.resize(sim::Below(c.queries)); break;
    case 10: what = "number of queries (more)"; proof2.query_proofs.push_back(proof.query_proofs[sim::Below(c.queries)]); break;
    case 11:
      what = "number of folds";
      if (!big) return;
      proof2.commit_phase_commits.pop_back();
      for (auto& p : proof2.query_proofs) p.commit_phase_openings.pop_back();
      break;
  }
  if (!certain) return;
  sim::Count("tampered proofs");
  sim::OutcomeVal(uint8_t{1});
  if (sim::AcceptsOrAborts([&] { return verify(commits2, opened2, proof2); }))
    sim::Fail("%s: accepted with a changed %s", shape.c_str(), what);
}

// Folding a row, a matrix and the polynomial itself are the same.
SIM_SCENARIO("C10", fold, sim::kOmp | sim::kSameOutcome, 2, 4) {
  size_t log = sim::Range(0, sim::Chance(1, 4) ? 7 : 4), rows = size_t{1} << log;
  F4 beta = F4(vu::Elem<F>());
  for (size_t k = 1; k < 4; ++k) beta[k] = vu::Elem<F>();
  math::RowMajorMatrix<F4> m(rows, 2);
  // p(x) on the group of 2 * rows elements in bit-reversed order: p(x), p(-x) side by side
  std::vector<F4> coeff(sim::Range(0, 2 * rows));
  for (auto& x : coeff) { x = F4(vu::Elem<F>()); x[1] = vu::Elem<F>(); }
  sim::Describe("%zu rows, %zu coefficients", rows, coeff.size());
  auto at = [&](const F4& x) { F4 s = F4::Zero(); for (size_t i = coeff.size(); i--;) s = s * x + coeff[i]; return s; };
  F w = Root(2 * rows);
  for (size_t i = 0; i < rows; ++i) {
    F x = vu::NaivePow(w, Rev(2 * i, log + 1));
    m(i, 0) = at(F4(x));
    m(i, 1) = at(F4(-x));
  }
  std::vector<F4> got = FoldMatrix(beta, m);
  SIM_REQUIRE(got.size() == rows);
  for (size_t i = 0; i < rows; ++i) {
    // even(y) + beta * odd(y)
    F4 y(vu::NaivePow(w, 2 * Rev(i, log))), s = F4::Zero(), p = F4::One();
    for (size_t k = 0; k < coeff.size(); k += 2) { s += p * (coeff[k] + (k + 1 < coeff.size() ? beta * coeff[k + 1] : F4::Zero())); p *= y; }
    SIM_CHECK(got[i] == s, "folding %zu rows: row %zu", rows, i);
    SIM_CHECK(FoldRow(i, log, beta, std::vector<F4>{m(i, 0), m(i, 1)}) == s, "folding row %zu of %zu", i, rows);
  }
  for (const auto& x : got) for (size_t k = 0; k < 4; ++k) sim::OutcomeVal(x[k]);
}
// The work witness is one the verifier finds good, and leaves both in the same state.
SIM_SCENARIO("C10", grind, sim::kOmp, 2, 5) {
  Chal a;
  for (size_t n = sim::Below(12); n--;) a.Observe(vu::Elem<F>());
  if (sim::Chance(1, 2)) a.Sample();
  uint32_t bits = sim::Below(7);
  bool small = sim::Chance(1, 2);
  base::Range<uint32_t> range(0, sim::Chance(1, 2) ? 2000 + sim::Below(3000) : F::Config::kModulus);
  if (small) { range.from = sim::Below(50); range.to = range.from + 1000 + sim::Below(400); }
  sim::Describe("%u bits among [%u, %u)", bits, range.from, range.to);
  Chal b = a;
  F w = a.Grind(bits, range);
  uint32_t v = static_cast<uint32_t>(w.ToBigInt()[0]);
  SIM_CHECK(v >= range.from && v < range.to, "witness %u", v);
  SIM_CHECK(b.CheckWitness(bits, w), "the witness found is not good");
  for (int i = 0; i < 10; ++i) SIM_CHECK(a.Sample() == b.Sample(), "prover and verifier go on differently");
}

namespace {
struct FrHasher : BinaryMerkleHasher<Fr, Fr> {
  static Fr Cube(const Fr& x) { return x * x * x; }
  Fr ComputeLeafHash(const Fr& x) const override { return x; }  // openings read values from the leaves
  Fr ComputeParentHash(const Fr& a, const Fr& b) const override { return Cube(a + Fr(3)) * Fr(5) + Cube(b * Fr(7) + a) + b; }
};
struct Layers : SimpleFRIStorage<Fr> {
  std::vector<SimpleBinaryMerkleTreeStorage<Fr>> l;
  void Allocate(size_t n) override { l.resize(n); }
  BinaryMerkleTreeStorage<Fr>* GetLayer(size_t i) override { return &l[i]; }
};
}  // namespace
SIM_SCENARIO("C10", simple, sim::kOmp | sim::kSameOutcome, 3, 4) {
  constexpr size_t kMax = 63;
  using SPCS = SimpleFRI<Fr, kMax>;
  size_t log = sim::Range(1, sim::Chance(1, 4) ? 6 : 4), n = size_t{1} << log;
  auto domain = SPCS::Domain::Create(n);
  Layers layers;
  FrHasher hasher;
  SPCS pcs(domain.get(), &layers, &hasher);
  auto c = vu::Vec<Fr>(sim::Range(0, n));
  while (!c.empty() && c.back().IsZero()) c.pop_back();
  sim::Describe("domain %zu, %zu coefficients", n, c.size());
  SPCS::Poly poly{math::UnivariateDenseCoefficients<Fr, kMax>(c)};
  SimpleTranscriptWriter<Fr> writer((base::Uint8VectorBuffer()));
  bool ok = pcs.Commit(poly, &writer);
  if (c.empty() && !ok) return;  // zero has no evaluations, and is refused
  SIM_REQUIRE(ok);
  base::Uint8VectorBuffer written = std::move(writer).TakeBuffer();
  size_t len = written.buffer_offset();
  std::vector<uint8_t> bytes((uint8_t*)written.buffer(), (uint8_t*)written.buffer() + len);
  sim::Outcome(bytes.data(), bytes.size());
  auto verify = [&](const std::vector<uint8_t>& b, size_t index, const SimpleFRIProof<Fr>& p) {
    base::Buffer buf((void*)b.data(), b.size());
    SimpleTranscriptReader<Fr> reader(std::move(buf));
    return pcs.VerifyOpeningProof(reader, index, p);
  };
  for (int t = 0; t < 3; ++t) {
    size_t index = sim::Below(n);
    SimpleFRIProof<Fr> proof;
    SIM_REQUIRE(pcs.CreateOpeningProof(index, &proof));
    SIM_REQUIRE(proof.evaluations.size() == log && proof.evaluations_sym.size() == log);
    Fr w = domain->group_gen(), x = vu::NaivePow(w, index), v = Fr::Zero(), s = Fr::Zero();
    for (size_t k = c.size(); k--;) { v = v * x + c[k]; s = s * -x + c[k]; }
    SIM_CHECK(proof.evaluations[0] == v && proof.evaluations_sym[0] == s, "value at %zu", index);
    SIM_CHECK(verify(bytes, index, proof), "the honest opening of %zu in 2^%zu is rejected", index, log);
    auto b2 = bytes;
    auto p2 = proof;
    size_t k = sim::Below(log);
    const char* what = "";
    switch (sim::Below(6)) {
      case 0: what = "value"; p2.evaluations[k] += vu::NonZero<Fr>(); break;
      case 1: what = "opposite value"; p2.evaluations_sym[k] += vu::NonZero<Fr>(); break;
      case 2: what = "path"; { auto& q = p2.paths[k].paths; q[sim::Below(q.size())].hash += vu::NonZero<Fr>(); } break;
      case 3: what = "opposite path"; { auto& q = p2.paths_sym[k].paths; q[sim::Below(q.size())].hash += vu::NonZero<Fr>(); } break;
      case 4: what = "root or final value"; b2[sim::Below(log + 1) * 32] ^= 1 << sim::Below(8); break;
      case 5: what = "transcript cut short"; b2.resize(sim::Below(len)); break;
    }
    SIM_CHECK(!verify(b2, index, p2), "2^%zu: accepted with a changed %s", log, what);
    sim::Count("tampered openings");
  }
}

// ---- C28 --------------------------------------------------------------------------------
SIM_SCENARIO("C28", coset, sim::kOmp | sim::kSameOutcome, 2, 4) {
  uint32_t log = sim::Range(0, sim::Chance(1, 4) ? 6 : 4);
  size_t n = size_t{1} << log;
  F shift = sim::Chance(1, 3) ? F::One() : vu::NonZero<F>(), w = Root(n);
  Coset co(log, shift);
  sim::Describe("2^%u", log);
  std::vector<F> el;
  F p = shift;
  for (size_t i = 0; i < n; ++i, p *= w) el.push_back(p);
  for (size_t i = 0; i < n; ++i) {
    SIM_REQUIRE(co.domain()->GetElement(i) == el[i]);
    SIM_REQUIRE(co.GetNextPoint(el[i]) == el[(i + 1) % n]);
    SIM_REQUIRE(co.GetZpAtPoint(el[i]).IsZero());
  }
  F x;
  bool in;
  do { x = vu::NonZero<F>(); in = false; for (auto& e : el) in |= e == x; } while (in);
  F y = x * *shift.Inverse();
  F z = vu::NaivePow(y, n) - F::One();
  SIM_REQUIRE(co.GetZpAtPoint(x) == z);
  F4 x4(vu::Elem<F>());
  x4[1] = vu::NonZero<F>();
  F4 y4 = x4 * F4(*shift.Inverse()), z4 = F4::One();
  for (size_t i = 0; i < n; ++i) z4 *= y4;
  z4 -= F4::One();
  SIM_REQUIRE(co.GetZpAtPoint(x4) == z4);
  {
    auto s = co.GetSelectorsAtPoint(x4);
    F4 last(vu::NaivePow(w, n - 1));
    SIM_CHECK(s.first_row * (y4 - F4::One()) == z4, "first row");
    SIM_CHECK(s.last_row * (y4 - last) == z4, "last row");
    SIM_CHECK(s.transition == y4 - last, "transition");
    SIM_CHECK((s.inv_zeroifier * z4).IsOne(), "inverse zeroifier");
  }
  size_t parts = size_t{1} << sim::Range(0, log);
  auto split = co.SplitDomains(parts);
  SIM_REQUIRE(split.size() == parts);
  for (size_t k = 0; k < parts; ++k) {
    SIM_REQUIRE(split[k].domain()->size() == n / parts);
    for (size_t i = 0; i < n / parts; ++i) SIM_CHECK(split[k].domain()->GetElement(i) == el[i * parts + k], "part %zu of %zu", k, parts);
  }
  size_t min = sim::Range(1, 3 * n);
  Coset dis = co.CreateDisjointDomain(min);
  SIM_REQUIRE(dis.domain()->size() >= min && dis.domain()->size() < 2 * min);
  SIM_REQUIRE(dis.domain()->offset() == shift * Gen());
}
SIM_SCENARIO("C28", selectors, sim::kOmp | sim::kSameOutcome, 3, 4) {
  uint32_t log = sim::Range(0, 4), rate = sim::Range(0, sim::Chance(1, 4) ? 5 : 2);
  size_t n = size_t{1} << log, m = n << rate;
  F shift = sim::Chance(1, 2) ? Gen() : vu::NonZero<F>(), w = Root(n), wm = Root(m);
  while (vu::NaivePow(shift, m).IsOne()) shift = vu::NonZero<F>();
  Coset dom(log, F::One()), co(log + rate, shift);
  sim::Describe("2^%u on 2^%u", log, log + rate);
  auto s = dom.GetSelectorsOnCoset(co);
  SIM_REQUIRE(s.first_row.size() == m && s.last_row.size() == m && s.transition.size() == m && s.inv_zeroifier.size() == m);
  F x = shift, last = vu::NaivePow(w, n - 1);
  for (size_t i = 0; i < m; ++i, x *= wm) {
    F z = vu::NaivePow(x, n) - F::One();
    SIM_CHECK(s.first_row[i] * (x - F::One()) == z, "first row selector of 2^%u on 2^%u at %zu", log, log + rate, i);
    SIM_CHECK(s.last_row[i] * (x - last) == z, "last row selector at %zu", i);
    SIM_CHECK(s.transition[i] == x - last, "transition selector at %zu", i);
    SIM_CHECK((s.inv_zeroifier[i] * z).IsOne(), "inverse zeroifier at %zu", i);
    sim::OutcomeVal(s.first_row[i]);
  }
}
