// Proving and verifying with the PLONK backend; used by the C12 harnesses.
#ifndef SIM_HARNESS_PLONK_H_
#define SIM_HARNESS_PLONK_H_
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "fft.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/halo2/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/pinned_constraint_system.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/constants.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "tachyon/zk/plonk/keys/proving_key.h"

namespace vp {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;

inline void Init() {
  math::bn254::BN254Curve::Init();
  math::halo2::OverrideSubgroupGenerator();
  LOG(INFO) << "warm";
}

enum class Tr { kBlake2b, kPoseidon, kSha256, kSnark };

template <typename Circuit, typename PS>
struct Job {
  using PCS = typename PS::PCS;
  using F = typename PCS::Field;
  using Evals = typename PCS::Evals;
  using C = typename PCS::Commitment;
  using Domain = typename PCS::Domain;
  using Ext = typename PCS::ExtendedDomain;
  size_t n = 0;
  F tau;
  Tr tr = Tr::kBlake2b;
  std::vector<Circuit> circuits;
  std::vector<std::vector<Evals>> instances;
  uint8_t seed[16];
  bool legacy = true;
  bool blank_keys = false;  // WithoutWitness() keeps everything the keys depend on
  bool split_keys = false;  // build the verifying key first and the proving key from it

  void RandomSetup() {
    do tau = vu::NonZero<F>(); while (tau == F::One() || tau.Pow(n) == F::One());
    for (auto& b : seed) b = sim::Rand() & 255;
    seed[0] |= 1;
    split_keys = sim::Chance(1, 3);
    legacy = sim::Chance(1, 2);
    if (sim::Chance(1, 2)) tr = static_cast<Tr>(sim::Below(4));
  }
  template <typename R>
  static std::unique_ptr<R> Null();
  std::unique_ptr<crypto::TranscriptWriter<C>> Writer() const {
    base::Uint8VectorBuffer b;
    switch (tr) {
      case Tr::kBlake2b: return std::make_unique<halo2::Blake2bWriter<C>>(std::move(b));
      case Tr::kPoseidon: return std::make_unique<halo2::PoseidonWriter<C>>(std::move(b));
      case Tr::kSha256: return std::make_unique<halo2::Sha256Writer<C>>(std::move(b));
      case Tr::kSnark: return std::make_unique<halo2::SnarkVerifierPoseidonWriter<C>>(std::move(b));
    }
    return nullptr;
  }
  std::unique_ptr<crypto::TranscriptReader<C>> Reader(std::vector<uint8_t>& p) const {
    base::Buffer b(p.data(), p.size());
    switch (tr) {
      case Tr::kBlake2b: return std::make_unique<halo2::Blake2bReader<C>>(std::move(b));
      case Tr::kPoseidon: return std::make_unique<halo2::PoseidonReader<C>>(std::move(b));
      case Tr::kSha256: return std::make_unique<halo2::Sha256Reader<C>>(std::move(b));
      case Tr::kSnark: return std::make_unique<halo2::SnarkVerifierPoseidonReader<C>>(std::move(b));
    }
    return nullptr;
  }
  halo2::Prover<PS> MakeProver() const {
    PCS pcs;
    CHECK(pcs.UnsafeSetup(n, tau));
    auto rng = std::make_unique<crypto::XORShiftRNG>();
    CHECK(rng->SetSeed(absl::Span<const uint8_t>(seed, 16)));
    auto p = halo2::Prover<PS>::Create(std::move(pcs), Writer(), std::move(rng), 0);
    p.set_domain(Domain::Create(n));
    p.set_extended_domain(Ext::Create(PCS::kMaxExtendedDegree + 1));
    return p;
  }
  std::vector<uint8_t> Prove() {
    halo2::ProofSerializer<C>::s_use_legacy_serialization = legacy;
    auto prover = MakeProver();
    ProvingKey<PS> pk;
    // The keys come from a circuit without its witness: they must not depend on it.
    auto blank = circuits[0].WithoutWitness();
    const auto& keyc = !blank_keys || sim::Chance(1, 2) ? circuits[0] : static_cast<const Circuit&>(*blank);
    if (split_keys) {
      VerifyingKey<F, C> vk;
      SIM_CHECK(vk.Load(&prover, circuits[0], PS::kLookupType), "the verifying key cannot be built");
      SIM_CHECK(pk.LoadWithVerifyingKey(&prover, keyc, std::move(vk)), "the proving key cannot be built");
    } else {
      SIM_CHECK(pk.Load(&prover, keyc), "the proving key cannot be built");
    }
    auto in = instances;
    auto cs = circuits;
    prover.CreateProof(pk, std::move(in), cs);
    return prover.GetWriter()->buffer().owned_buffer();
  }
  bool Verify(std::vector<uint8_t> proof, const std::vector<std::vector<Evals>>& in) {
    auto prover = MakeProver();
    VerifyingKey<F, C> vk;
    SIM_CHECK(vk.Load(&prover, circuits[0], PS::kLookupType), "the verifying key cannot be built");
    auto verifier = prover.ToVerifier(Reader(proof));
    return verifier.VerifyProof(vk, in);
  }
};

// Changes a proof so that it decodes to something else (if it still decodes).
inline bool Corrupt(std::vector<uint8_t>* p, std::string* how, bool legacy) {
  if (p->empty()) return false;
  char b[96];
  for (int tries = 0; tries < 20; ++tries) {
    size_t i = sim::Below(p->size());
    size_t w = i / 32 * 32;
    // The point at infinity has more than one accepted encoding.
    bool zero = true;
    for (size_t k = w; k < w + 31 && k < p->size(); ++k) zero = zero && (*p)[k] == 0;
    if (zero) continue;
    switch (sim::Below(4)) {
      case 0: case 1: {
        uint8_t m = 1 << sim::Below(8);
        // Halo2's second encoding ignores the infinity bit of any other point.
        if (!legacy && i % 32 == 31 && m == 0x80) continue;
        snprintf(b, sizeof b, "bit flipped in byte %zu of %zu", i, p->size());
        (*p)[i] ^= m; *how = b; return true;
      }
      case 2: {
        size_t j = sim::Below(p->size() / 32) * 32;
        if (std::equal(p->begin() + w, p->begin() + w + 32, p->begin() + j)) continue;
        snprintf(b, sizeof b, "words at %zu and %zu swapped", w, j);
        std::swap_ranges(p->begin() + w, p->begin() + w + 32, p->begin() + j); *how = b; return true;
      }
      default: {
        size_t j = sim::Below(p->size() / 32) * 32;
        if (std::equal(p->begin() + w, p->begin() + w + 32, p->begin() + j)) continue;
        snprintf(b, sizeof b, "word at %zu replaced by the one at %zu", w, j);
        std::copy(p->begin() + j, p->begin() + j + 32, p->begin() + w); *how = b; return true;
      }
    }
  }
  return false;
}

// Proves, checks acceptance and one refusal.
template <typename J>
void Honest(J& job, const std::vector<uint8_t>* golden = nullptr) {
  using F = typename J::F;
  using Evals = typename J::Evals;
  std::vector<uint8_t> proof = job.Prove();
  sim::Outcome(proof.data(), proof.size());
  if (golden && proof != *golden) {
    size_t i = 0;
    while (i < proof.size() && i < golden->size() && proof[i] == (*golden)[i]) ++i;
    sim::Fail("the proof is not the one Halo2 makes: byte %zu of %zu (%zu)", i, golden->size(), proof.size());
  }
  SIM_CHECK(job.Verify(proof, job.instances), "the honest proof is refused");
  sim::Count("honest_proofs");
  std::string how;
  if (sim::Chance(1, 2)) {
    // Another statement.
    auto in = job.instances;
    std::vector<std::pair<size_t, size_t>> at;
    for (size_t i = 0; i < in.size(); ++i)
      for (size_t j = 0; j < in[i].size(); ++j)
        if (in[i][j].NumElements()) at.push_back({i, j});
    if (at.empty()) return;
    auto [i, j] = at[sim::Below(at.size())];
    std::vector<F> v = in[i][j].evaluations();
    if (sim::Chance(1, 4) && v.back() != F::Zero()) {
      v.pop_back();
    } else if (sim::Chance(1, 4)) {
      v.push_back(vu::NonZero<F>());
    } else {
      v[sim::Below(v.size())] += vu::NonZero<F>();
    }
    in[i][j] = Evals(std::move(v));
    if (sim::AcceptsOrAborts([&] { return job.Verify(proof, in); }))
      sim::Fail("a proof is accepted for another statement");
    sim::Count("altered_statements_refused");
  } else {
    auto p = proof;
    if (sim::Chance(1, 10)) {
      p.resize(sim::Below(p.size()));
      how = "truncated";
    } else if (!Corrupt(&p, &how, job.legacy)) {
      return;
    }
    if (sim::AcceptsOrAborts([&] { return job.Verify(p, job.instances); }))
      sim::Fail("an altered proof is accepted: %s", how.c_str());
    sim::Count("altered_proofs_refused");
  }
}

// A witness that does not satisfy the circuit must not lead to an accepted proof.
template <typename J>
void Dishonest(J& job, const char* what) {
  sim::Describe("unsatisfied: %s", what);
  if (sim::AcceptsOrAborts([&] {
        std::vector<uint8_t> proof = job.Prove();
        return job.Verify(proof, job.instances);
      }))
    sim::Fail("a proof from an unsatisfying witness is accepted: %s", what);
  sim::Count("unsatisfied_witnesses_refused");
}
}  // namespace vp
#endif
