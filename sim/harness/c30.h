// C30: the C interface to the Halo2 prover and verifier against the library itself.
#ifndef SIM_HARNESS_C30_H_
#define SIM_HARNESS_C30_H_
#include <stdlib.h>
#include <unistd.h>
#include "plonk_rand.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1_point_type_traits.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2_point_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations_type_traits.h"
#include "tachyon/c/zk/base/bn254_blinder.h"
#include "tachyon/c/zk/plonk/constraint_system/bn254_constraint_system.h"
#include "tachyon/c/zk/plonk/halo2/bn254_argument_data.h"
#include "tachyon/c/zk/plonk/halo2/bn254_instance_columns_vec.h"
#include "tachyon/c/zk/plonk/halo2/bn254_prover.h"
#include "tachyon/c/zk/plonk/halo2/bn254_ps.h"
#include "tachyon/c/zk/plonk/halo2/bn254_transcript.h"
#include "tachyon/c/zk/plonk/halo2/bn254_verifier.h"
#include "tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.h"
#include "tachyon/c/zk/plonk/keys/bn254_plonk_verifying_key.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/rng_type.h"

namespace vp {
using Fr = math::bn254::Fr;
using G1 = math::bn254::G1AffinePoint;

// Writes what Halo2 hands to the library: integers big-endian, field elements as they are in memory.
struct Wire {
  std::vector<uint8_t> b;
  void U8(uint8_t v) { b.push_back(v); }
  void U32(uint64_t v) { for (int s = 24; s >= 0; s -= 8) b.push_back(uint8_t(v >> s)); }
  void I32(int32_t v) { U32(uint32_t(v)); }
  template <typename P>
  void Limbs(const P& v) {
    for (size_t i = 0; i < P::kLimbNums; ++i)
      for (int s = 0; s < 64; s += 8) b.push_back(uint8_t(v.value().limbs[i] >> s));
  }
  void Put(const Fr& v) { Limbs(v); }
  void Put(const G1& p) { Limbs(p.x()); Limbs(p.y()); }
  void Put(const math::bn254::G2AffinePoint& p) {
    Limbs(p.x().c0()); Limbs(p.x().c1()); Limbs(p.y().c0()); Limbs(p.y().c1());
  }
  void Put(Phase p) { U8(p.value()); }
  void Put(Rotation r) { I32(r.value()); }
  void Put(const Challenge& c) { U32(c.index()); Put(c.phase()); }
  void Put(const Selector& s) { U32(s.index()); U8(s.is_simple()); }
  void Put(const FixedColumnKey& c) { U32(c.index()); U8(3); }
  void Put(const InstanceColumnKey& c) { U32(c.index()); U8(1); }
  void Put(const AdviceColumnKey& c) { U32(c.index()); U8(2); Put(c.phase()); }
  void Put(const AnyColumnKey& c) {
    U32(c.index());
    U8(c.type() == ColumnType::kInstance ? 1 : c.type() == ColumnType::kAdvice ? 2 : 3);
    Put(c.type() == ColumnType::kAdvice ? c.phase() : Phase(0));
  }
  void Put(const VirtualCell& c) { Put(c.column()); Put(c.rotation()); }
  template <ColumnType C>
  void Data(const QueryData<C>& q) { Put(q.column()); Put(q.rotation()); }
  void Put(const AdviceQueryData& q) { Data(q); }
  void Put(const InstanceQueryData& q) { Data(q); }
  void Put(const FixedQueryData& q) { Data(q); }
  template <ColumnType C>
  void Ask(const Query<C>& q) {
    U8(q.HasIndex());
    if (q.HasIndex()) U32(q.GetIndex());
    U32(q.column().index());
    Put(q.rotation());
    if constexpr (C == ColumnType::kAdvice) Put(q.column().phase());
  }
  template <typename P, typename = decltype(std::declval<P>().coefficients())>
  void Put(const P& p) {
    // A polynomial is written with every coefficient it may have.
    const auto& c = p.coefficients().coefficients();
    U32(c.size());
    for (const auto& x : c) Put(x);
  }
  template <size_t M>
  void Put(const math::UnivariateEvaluations<Fr, M>& e) { U32(e.NumElements()); for (const auto& x : e.evaluations()) Put(x); }
  using Ex = Expression<Fr>;
  void Put(const std::unique_ptr<Ex>& e) { Put(*e); }
  void Put(const Ex& e) {
    switch (e.type()) {
      case ExpressionType::kConstant: U8(0); Put(static_cast<const ConstantExpression<Fr>&>(e).value()); return;
      case ExpressionType::kSelector: U8(1); Put(static_cast<const SelectorExpression<Fr>&>(e).selector()); return;
      case ExpressionType::kFixed: U8(2); Ask(static_cast<const FixedExpression<Fr>&>(e).query()); return;
      case ExpressionType::kAdvice: U8(3); Ask(static_cast<const AdviceExpression<Fr>&>(e).query()); return;
      case ExpressionType::kInstance: U8(4); Ask(static_cast<const InstanceExpression<Fr>&>(e).query()); return;
      case ExpressionType::kChallenge: U8(5); Put(static_cast<const ChallengeExpression<Fr>&>(e).challenge()); return;
      case ExpressionType::kNegated: U8(6); Put(*static_cast<const NegatedExpression<Fr>&>(e).expr()); return;
      case ExpressionType::kSum: { auto& x = static_cast<const SumExpression<Fr>&>(e); U8(7); Put(*x.left()); Put(*x.right()); return; }
      case ExpressionType::kProduct: { auto& x = static_cast<const ProductExpression<Fr>&>(e); U8(8); Put(*x.left()); Put(*x.right()); return; }
      case ExpressionType::kScaled: { auto& x = static_cast<const ScaledExpression<Fr>&>(e); U8(9); Put(*x.expr()); Put(x.scale()); return; }
      default: sim::Fail("harness: expression of type %d", static_cast<int>(e.type()));
    }
  }
  void Put(const Gate<Fr>& g) { Put(g.polys()); Put(g.queried_selectors()); Put(g.queried_cells()); }
  void Put(const lookup::Argument<Fr>& a) { Put(a.inputs_expressions()); Put(a.table_expressions()); }
  void Put(const shuffle::Argument<Fr>& a) { Put(a.input_expressions()); Put(a.shuffle_expressions()); }
  template <typename T>
  void Put(const std::vector<T>& v) { U32(v.size()); for (const auto& x : v) Put(x); }

  void Put(const ConstraintSystem<Fr>& cs) {
    U32(cs.num_fixed_columns());
    U32(cs.num_advice_columns());
    U32(cs.num_instance_columns());
    U32(cs.num_simple_selectors());
    U32(cs.num_simple_selectors() + cs.num_complex_selectors());
    U32(cs.num_challenges());
    Put(cs.advice_column_phases());
    Put(cs.challenge_phases());
    Put(cs.selector_map());
    Put(cs.gates());
    Put(cs.advice_queries());
    U32(cs.num_advice_queries().size());
    for (auto n : cs.num_advice_queries()) U32(n);
    Put(cs.instance_queries());
    Put(cs.fixed_queries());
    Put(cs.permutation().columns());
    U32(cs.lookups_map().size());
    for (const auto& [k, v] : cs.lookups_map()) {
      U32(k.size());
      b.insert(b.end(), k.begin(), k.end());
      Put(v.table);
      Put(v.inputs);
    }
    Put(cs.lookups());
    Put(cs.shuffles());
    Put(cs.constants());
    U8(cs.minimum_degree().has_value());
    if (cs.minimum_degree()) U32(*cs.minimum_degree());
  }
  template <typename PS>
  void Put(const ProvingKey<PS>& pk, uint32_t k) {
    const auto& vk = pk.verifying_key();
    U32(k);
    Put(vk.fixed_commitments());
    Put(vk.constraint_system());
    for (const auto& c : vk.permutation_verifying_key().commitments()) Put(c);
    Put(pk.l_first());
    Put(pk.l_last());
    Put(pk.l_active_row());
    Put(pk.fixed_columns());
    Put(pk.fixed_polys());
    if constexpr (PS::kVendor == halo2::Vendor::kPSE) Put(pk.fixed_cosets());
    Put(pk.permutation_proving_key().permutations());
    Put(pk.permutation_proving_key().polys());
    if (PS::kVendor == halo2::Vendor::kPSE) Put(pk.permutation_proving_key().cosets());
  }
};

// ---- the same, natively and through C --------------------------------------------
template <typename PS, template <typename> class FP>
struct Api {
  using PCS = typename PS::PCS;
  using Circ = RandCircuit<Fr, FP>;
  using J = Job<Circ, PS>;
  using Evals = typename PCS::Evals;
  using Poly = typename PCS::Poly;
  static constexpr uint8_t kVendor = static_cast<uint8_t>(PS::kVendor);
  uint8_t pcs_type;
  J job;
  crypto::RNGType rng_type = crypto::RNGType::kXORShift;
  uint32_t k = 0, ext_k = 0;

  std::unique_ptr<crypto::RNG> Rng() const {
    uint8_t seed[32];
    for (int i = 0; i < 32; ++i) seed[i] = job.seed[i & 15] + i / 16;
    std::unique_ptr<crypto::RNG> r;
    bool chacha = rng_type == crypto::RNGType::kChaCha20;
    if (chacha) r = std::make_unique<crypto::ChaCha20RNG>(); else r = std::make_unique<crypto::XORShiftRNG>();
    CHECK(r->SetSeed(absl::Span<const uint8_t>(seed, chacha ? 32 : 16)));
    return r;
  }
  halo2::Prover<PS> Native() const {
    PCS pcs;
    CHECK(pcs.UnsafeSetup(job.n, job.tau));
    auto p = halo2::Prover<PS>::Create(std::move(pcs), job.Writer(), Rng(), 0);
    p.set_domain(PCS::Domain::Create(job.n));
    p.set_extended_domain(PCS::ExtendedDomain::Create(size_t{1} << (ext_k ? ext_k : k + 3)));
    return p;
  }
  template <typename W>
  static std::vector<uint8_t> StateOf(const crypto::TranscriptWriter<G1>* w) { return static_cast<const W*>(w)->GetState(); }
  std::vector<uint8_t> State(const crypto::TranscriptWriter<G1>* w) const {
    switch (job.tr) {
      case Tr::kBlake2b: return StateOf<halo2::Blake2bWriter<G1>>(w);
      case Tr::kPoseidon: return StateOf<halo2::PoseidonWriter<G1>>(w);
      case Tr::kSha256: return StateOf<halo2::Sha256Writer<G1>>(w);
      default: return StateOf<halo2::SnarkVerifierPoseidonWriter<G1>>(w);
    }
  }
  std::vector<uint8_t> Params(const PCS& pcs) const {
    Wire w;
    for (int s = 0; s < 32; s += 8) w.U8(k >> s);
    // tau^i, then the i-th Lagrange polynomial of the domain at tau.
    auto mul = [](const Fr& x) { return (G1::Generator() * x).ToAffine(); };
    auto domain = PCS::Domain::Create(job.n);
    Fr t = Fr::One(), root = domain->group_gen(), wi = Fr::One();
    for (size_t i = 0; i < job.n; ++i) { w.Put(mul(t)); t *= job.tau; }
    for (size_t i = 0; i < job.n; ++i) {
      w.Put(mul(*((t - Fr::One()) * wi / (Fr(job.n) * (job.tau - wi)))));
      wi *= root;
    }
    w.Put(math::bn254::G2AffinePoint::Generator());
    w.Put(pcs.SG2());
    return std::move(w.b);
  }
  tachyon_halo2_bn254_prover* MakeC(bool from_params, const std::vector<uint8_t>& params) const {
    uint8_t t = static_cast<uint8_t>(job.tr);
    tachyon_bn254_fr s = c::base::c_cast(job.tau);
    return from_params ? tachyon_halo2_bn254_prover_create_from_params(kVendor, pcs_type, t, k, params.data(), params.size())
                       : tachyon_halo2_bn254_prover_create_from_unsafe_setup(kVendor, pcs_type, t, k, &s);
  }

  void CheckConstraintSystem(const tachyon_bn254_plonk_constraint_system* c, const ConstraintSystem<Fr>& cs) {
    SIM_REQUIRE(tachyon_bn254_plonk_constraint_system_compute_blinding_factors(c) == cs.ComputeBlindingFactors());
    SIM_REQUIRE(tachyon_bn254_plonk_constraint_system_get_num_fixed_columns(c) == cs.num_fixed_columns());
    SIM_REQUIRE(tachyon_bn254_plonk_constraint_system_get_num_advice_columns(c) == cs.num_advice_columns());
    SIM_REQUIRE(tachyon_bn254_plonk_constraint_system_get_num_instance_columns(c) == cs.num_instance_columns());
    SIM_REQUIRE(tachyon_bn254_plonk_constraint_system_get_num_challenges(c) == cs.num_challenges());
    auto phases = [&](auto get, const std::vector<Phase>& want, const char* what) {
      size_t len = 999;
      get(c, nullptr, &len);
      SIM_CHECK(len == want.size(), "%zu %s for %zu", len, what, want.size());
      std::vector<tachyon_phase> got(len + 1);
      got[len].value = 77;
      get(c, got.data(), &len);
      for (size_t i = 0; i < want.size(); ++i) SIM_CHECK(got[i].value == want[i].value(), "%s %zu", what, i);
      SIM_CHECK(got[len].value == 77, "%s written beyond the end", what);
    };
    phases(tachyon_bn254_plonk_constraint_system_get_advice_column_phases, cs.advice_column_phases(), "column phases");
    phases(tachyon_bn254_plonk_constraint_system_get_challenge_phases, cs.challenge_phases(), "challenge phases");
    std::vector<Phase> all;
    for (uint8_t p = 0; p <= cs.ComputeMaxPhase().value(); ++p) all.push_back(Phase(p));
    phases(tachyon_bn254_plonk_constraint_system_get_phases, all, "phases");
    size_t len = 999;
    tachyon_bn254_plonk_constraint_system_get_constants(c, nullptr, &len);
    SIM_REQUIRE(len == cs.constants().size());
    std::vector<tachyon_fixed_column_key> keys(len);
    tachyon_bn254_plonk_constraint_system_get_constants(c, keys.data(), &len);
    for (size_t i = 0; i < len; ++i) SIM_CHECK(keys[i].index == cs.constants()[i].index(), "constants %zu", i);
  }
  tachyon_halo2_bn254_instance_columns_vec* Instances(const std::vector<std::vector<Evals>>& in) const {
    auto* v = tachyon_halo2_bn254_instance_columns_vec_create(in.size());
    for (size_t i = 0; i < in.size(); ++i) {
      tachyon_halo2_bn254_instance_columns_vec_resize_columns(v, i, in[i].size());
      for (size_t j = 0; j < in[i].size(); ++j) {
        tachyon_halo2_bn254_instance_columns_vec_reserve_values(v, i, j, in[i][j].NumElements());
        for (const Fr& x : in[i][j].evaluations()) {
          tachyon_bn254_fr f = c::base::c_cast(x);
          tachyon_halo2_bn254_instance_columns_vec_add_values(v, i, j, &f);
        }
      }
    }
    return v;
  }
  bool Verify(const std::vector<uint8_t>& params, const std::vector<uint8_t>& proof,
              const tachyon_bn254_plonk_proving_key* pk, const std::vector<std::vector<Evals>>& in) const {
    auto* v = tachyon_halo2_bn254_verifier_create_from_params(kVendor, pcs_type, static_cast<uint8_t>(job.tr), k, params.data(),
                                                              params.size(), proof.data(), proof.size());
    bool ok = tachyon_halo2_bn254_verifier_verify_proof(v, tachyon_bn254_plonk_proving_key_get_verifying_key(pk), Instances(in));
    tachyon_halo2_bn254_verifier_destroy(v);
    return ok;
  }
  // What Halo2 does: the columns, then one call.
  tachyon_halo2_bn254_argument_data* Data(const halo2::ArgumentData<Poly, Evals>& from, const tachyon_halo2_bn254_prover* prover) const {
    auto& d = const_cast<halo2::ArgumentData<Poly, Evals>&>(from);
    size_t num = d.GetNumCircuits();
    auto* c = tachyon_halo2_bn254_argument_data_create(num);
    auto evals = [](const Evals& e) { return c::base::c_cast(new Evals(e)); };
    bool reserve = sim::Chance(1, 2), ifft = sim::Chance(1, 2);
    if (reserve) tachyon_halo2_bn254_argument_data_reserve_challenges(c, d.challenges().size());
    for (const Fr& x : d.challenges()) { tachyon_bn254_fr f = c::base::c_cast(x); tachyon_halo2_bn254_argument_data_add_challenge(c, &f); }
    for (size_t i = num; i--;) {
      if (reserve) {
        tachyon_halo2_bn254_argument_data_reserve_advice_columns(c, i, d.advice_columns_vec()[i].size());
        tachyon_halo2_bn254_argument_data_reserve_advice_blinds(c, i, d.advice_blinds_vec()[i].size());
        tachyon_halo2_bn254_argument_data_reserve_instance_columns(c, i, d.instance_columns_vec()[i].size());
        tachyon_halo2_bn254_argument_data_reserve_instance_polys(c, i, d.instance_polys_vec()[i].size());
      }
      for (const auto& e : d.advice_columns_vec()[i]) tachyon_halo2_bn254_argument_data_add_advice_column(c, i, evals(e));
      for (const Fr& x : d.advice_blinds_vec()[i]) { tachyon_bn254_fr f = c::base::c_cast(x); tachyon_halo2_bn254_argument_data_add_advice_blind(c, i, &f); }
      for (size_t j = 0; j < d.instance_columns_vec()[i].size(); ++j) {
        const auto& e = d.instance_columns_vec()[i][j];
        if (ifft) {
          auto* copy = evals(e);
          tachyon_halo2_bn254_argument_data_add_instance_poly(
              c, i, tachyon_bn254_univariate_evaluation_domain_ifft(tachyon_halo2_bn254_prover_get_domain(prover), copy));
          tachyon_bn254_univariate_evaluations_destroy(copy);
        } else {
          tachyon_halo2_bn254_argument_data_add_instance_poly(c, i, c::base::c_cast(new Poly(d.instance_polys_vec()[i][j])));
        }
        tachyon_halo2_bn254_argument_data_add_instance_column(c, i, evals(e));
      }
    }
    return c;
  }
  void CheckCommitments(tachyon_halo2_bn254_prover* p, const PCS& pcs) const {
    size_t num = sim::Range(1, 4);
    std::vector<Poly> polys;
    std::vector<Evals> evals;
    std::vector<G1> want;
    for (size_t i = 0; i < num; ++i) {
      auto v = vu::Vec<Fr>(job.n);
      G1 a, b;
      evals.push_back(Evals(v));
      CHECK(pcs.CommitLagrange(evals[i], &b));
      auto w = v;
      while (!w.empty() && w.back().IsZero()) w.pop_back();
      if (w.empty()) w.push_back(Fr::One());
      polys.push_back(Poly(math::UnivariateDenseCoefficients<Fr, c::math::kMaxDegree>(w)));
      CHECK(pcs.Commit(polys[i], &a));
      want.push_back(a); want.push_back(b);
      auto same = [&](tachyon_bn254_g1_projective* got, const G1& to, const char* what) {
        auto* n = reinterpret_cast<math::bn254::G1ProjectivePoint*>(got);
        SIM_CHECK(n->ToAffine() == to, "%s", what);
        delete n;
      };
      same(tachyon_halo2_bn254_prover_commit(p, c::base::c_cast(&polys[i])), a, "commitment to a polynomial");
      same(tachyon_halo2_bn254_prover_commit_lagrange(p, c::base::c_cast(&evals[i])), b, "commitment to values");
    }
    // In a batch, in any order.
    std::vector<size_t> order(want.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[sim::Below(i)]);
    tachyon_halo2_bn254_prover_batch_start(p, want.size());
    for (size_t i : order) {
      if (i % 2) tachyon_halo2_bn254_prover_batch_commit_lagrange(p, c::base::c_cast(&evals[i / 2]), i);
      else tachyon_halo2_bn254_prover_batch_commit(p, c::base::c_cast(&polys[i / 2]), i);
    }
    std::vector<G1> got(want.size());
    tachyon_halo2_bn254_prover_batch_end(p, const_cast<tachyon_bn254_g1_affine*>(c::base::c_cast(got.data())), got.size());
    for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == want[i], "commitment %zu of a batch of %zu", i, got.size());
  }

  void Run(const char* what) {
    job.n = sim::Chance(1, 2) ? 16 : sim::Chance(3, 4) ? 32 : 64;
    job.RandomSetup();
    if (sim::Chance(1, 2)) rng_type = crypto::RNGType::kChaCha20;
    for (k = 0; size_t{1} << k < job.n; ++k) {}
    Gen<Fr>::MakeShape(job.n);
    Gen<Fr> gen;
    gen.MakeFixed(job.n);
    size_t num = sim::Chance(2, 3) ? 1 : sim::Range(2, 3);
    for (size_t i = 0; i < num; ++i) {
      Circ c;
      c.f = gen.f;
      c.w = gen.MakeWitness();
      if (!gen.Satisfied(c.w)) return sim::Count("contradictory_circuits_skipped");
      job.circuits.push_back(c);
      std::vector<Evals> in;
      for (auto& v : c.w.inst) in.push_back(Evals(v));
      job.instances.push_back(in);
    }
    const Shape& s = g_shape;
    sim::Describe("%s n=%zu tr=%d rng=%d circuits=%zu cols=%d rows=%d inst=%d/%d/%d gates=%zu lookups=%zu/%d shuffles=%d phases=%d extra=%zu",
                  what, job.n, static_cast<int>(job.tr), static_cast<int>(rng_type), num, s.free_cols, s.rows, s.inst_cols,
                  s.gate_inst, s.look_inst, s.gates.size(), s.lookups.size(), s.tables, s.shuffles, s.phases, s.extra.size());
    // The library on its own.
    halo2::ProofSerializer<G1>::s_use_legacy_serialization = false;
    {
      auto p = Native();
      VerifyingKey<Fr, G1> vk;
      SIM_REQUIRE(vk.Load(&p, job.circuits[0], PS::kLookupType));
      ext_k = vk.constraint_system().ComputeExtendedK(k);
    }
    ProvingKey<PS> pk, pk2;
    auto a = Native();
    SIM_REQUIRE(pk.Load(&a, job.circuits[0]));
    Wire wire;
    wire.Put(pk, k);
    Fr repr = pk.verifying_key().transcript_repr();
    auto in = job.instances;
    auto cs = job.circuits;
    a.CreateProof(pk, std::move(in), cs);
    std::vector<uint8_t> want = a.GetWriter()->buffer().owned_buffer();
    // Halo2's part of it, which ends with the columns.
    auto b = Native();
    SIM_REQUIRE(pk2.Load(&b, job.circuits[0]));
    SIM_REQUIRE(b.GetWriter()->WriteToTranscript(repr));
    in = job.instances;
    cs = job.circuits;
    auto arg = halo2::ArgumentData<Poly, Evals>::Create(&b, cs, pk2.verifying_key().constraint_system(), std::move(in));
    SIM_CHECK(arg.challenges().size() == pk2.verifying_key().constraint_system().num_challenges(), "%zu challenges drawn of %zu", arg.challenges().size(), pk2.verifying_key().constraint_system().num_challenges());
    std::vector<uint8_t> proof = b.GetWriter()->buffer().owned_buffer();
    std::vector<uint8_t> tr_state = State(b.GetWriter());
    base::Uint8VectorBuffer rng_state;
    SIM_REQUIRE(b.rng()->WriteToBuffer(rng_state));
    // And the rest through C.
    std::vector<uint8_t> params = Params(b.pcs());
    bool from_params = sim::Chance(1, 2);
    auto* cp = MakeC(from_params, params);
    auto* cpk = tachyon_bn254_plonk_proving_key_create_from_state(kVendor, pcs_type, wire.b.data(), wire.b.size());
    const auto* cvk = tachyon_bn254_plonk_proving_key_get_verifying_key(cpk);
    const auto* ccs = tachyon_bn254_plonk_verifying_key_get_constraint_system(cvk);
    SIM_REQUIRE(tachyon_halo2_bn254_prover_get_k(cp) == k && tachyon_halo2_bn254_prover_get_n(cp) == job.n);
    SIM_REQUIRE(c::base::native_cast(*tachyon_halo2_bn254_prover_get_s_g2(cp)) == b.pcs().SG2());
    CheckConstraintSystem(ccs, pk2.verifying_key().constraint_system());
    if (sim::Chance(1, 3)) CheckCommitments(cp, b.pcs());
    tachyon_halo2_bn254_prover_set_extended_domain(cp, cpk);
    tachyon_halo2_bn254_prover_set_transcript_repr(cp, cpk);
    SIM_CHECK(c::base::native_cast(tachyon_bn254_plonk_verifying_key_get_transcript_repr(cvk)) == repr, "the key read is another one");
    auto* blinder = tachyon_halo2_bn254_prover_get_blinder(cp);
    tachyon_halo2_bn254_blinder_set_blinding_factors(blinder, tachyon_bn254_plonk_constraint_system_compute_blinding_factors(ccs));
    SIM_REQUIRE(tachyon_halo2_bn254_blinder_get_blinding_factors(blinder) == b.blinder().blinding_factors());
    tachyon_halo2_bn254_prover_set_rng_state(cp, static_cast<uint8_t>(rng_type), rng_state.owned_buffer().data(), rng_state.owned_buffer().size());
    tachyon_halo2_bn254_prover_set_transcript_state(cp, tr_state.data(), tr_state.size());
    auto* data = Data(arg, cp);
    tachyon_halo2_bn254_prover_create_proof(cp, cpk, data);
    tachyon_halo2_bn254_argument_data_destroy(data);
    size_t len = 0;
    tachyon_halo2_bn254_prover_get_proof(cp, nullptr, &len);
    size_t at = proof.size();
    proof.resize(at + len);
    tachyon_halo2_bn254_prover_get_proof(cp, proof.data() + at, &len);
    SIM_REQUIRE(proof.size() == at + len);
    sim::Outcome(proof.data(), proof.size());
    if (proof != want) {
      size_t i = 0;
      while (i < proof.size() && i < want.size() && proof[i] == want[i]) ++i;
      sim::Fail("the proof made through C is another one: byte %zu of %zu (%zu), %zu made before", i, want.size(), proof.size(), at);
    }
    sim::Count("proofs_through_c");
    tachyon_halo2_bn254_prover_destroy(cp);
    // Verified through C.
    base::Uint8VectorBuffer vparams;
    SIM_REQUIRE(vparams.Write(b.pcs()));
    const auto& vp = vparams.owned_buffer();
    SIM_CHECK(Verify(vp, proof, cpk, job.instances), "the proof is refused through C");
    // What is made is unmade.
    if (sim::Chance(1, 4)) {
      size_t live = 0;
      for (int round = 0; round < 3; ++round) {
        if (round) {
          size_t now = sim::HeapLiveBlocks();
          if (round == 2) SIM_CHECK(now == live, "%zd blocks are left of a prover, a verifier, a key and the columns", static_cast<ssize_t>(now - live));
        }
        live = sim::HeapLiveBlocks();
        auto* p = MakeC(round % 2, params);
        auto* key = tachyon_bn254_plonk_proving_key_create_from_state(kVendor, pcs_type, wire.b.data(), wire.b.size());
        tachyon_halo2_bn254_prover_set_extended_domain(p, key);
        tachyon_halo2_bn254_prover_set_transcript_repr(p, key);
        tachyon_halo2_bn254_prover_set_rng_state(p, static_cast<uint8_t>(rng_type), rng_state.owned_buffer().data(), rng_state.owned_buffer().size());
        tachyon_halo2_bn254_prover_set_transcript_state(p, tr_state.data(), tr_state.size());
        tachyon_halo2_bn254_argument_data_destroy(Data(arg, p));
        SIM_REQUIRE(Verify(vp, proof, key, job.instances));
        tachyon_bn254_plonk_proving_key_destroy(key);
        tachyon_halo2_bn254_prover_destroy(p);
      }
      sim::Count("lifetimes");
    }
    // Keys and parameters that end early, or do not end, are not taken.
    if (sim::Chance(1, 4)) {
      sim::Count("cut_keys");
      if (sim::Chance(1, 2)) {
        auto st = wire.b;
        if (sim::Chance(1, 4)) st.push_back(0); else st.resize(sim::Below(st.size()));
        if (sim::AcceptsOrAborts([&] { return tachyon_bn254_plonk_proving_key_create_from_state(kVendor, pcs_type, st.data(), st.size()) != nullptr; }))
          sim::Fail("a key of %zu bytes is taken for one of %zu", st.size(), wire.b.size());
      } else {
        params.resize(sim::Below(params.size()));
        if (sim::AcceptsOrAborts([&] { return MakeC(true, params) != nullptr; }))
          sim::Fail("parameters cut to %zu bytes are taken", params.size());
      }
      return;
    }
    std::string how;
    auto in2 = job.instances;
    auto proof2 = proof;
    if (sim::Chance(1, 2)) {
      std::vector<std::pair<size_t, size_t>> cells;
      for (size_t i = 0; i < in2.size(); ++i)
        for (size_t j = 0; j < in2[i].size(); ++j)
          if (in2[i][j].NumElements()) cells.push_back({i, j});
      if (!cells.empty()) {
        auto [i, j] = cells[sim::Below(cells.size())];
        auto v = in2[i][j].evaluations();
        v[sim::Below(v.size())] += vu::NonZero<Fr>();
        in2[i][j] = Evals(std::move(v));
        how = "another statement";
      }
    }
    if (how.empty() && !Corrupt(&proof2, &how, false)) how.clear();
    if (!how.empty() && sim::AcceptsOrAborts([&] { return Verify(vp, proof2, cpk, in2); }))
      sim::Fail("accepted through C: %s", how.c_str());
    tachyon_bn254_plonk_proving_key_destroy(cpk);
  }
};
}  // namespace vp
#endif
