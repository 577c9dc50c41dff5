// C26: the C interface SP1 uses (two-adic FRI over BabyBear with Poseidon2).
#include <array>
#include <thread>
#include "fft.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4_type_traits.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_commitment_vec_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_domains_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_duplex_challenger_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_field_merkle_tree_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_field_merkle_tree_vec_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_fri_proof_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_lde_vec_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opened_values_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_opening_points_type_traits.h"
#include "tachyon/c/zk/air/sp1/baby_bear_poseidon2_two_adic_fri_type_traits.h"
#define SP1(x) tachyon_sp1_baby_bear_poseidon2_##x

using namespace tachyon;
using c::base::c_cast;
using c::base::native_cast;
using F = math::BabyBear;
using F4 = math::BabyBear4;
using PCS = c::zk::air::sp1::baby_bear::PCS;
using Tree = c::zk::air::sp1::baby_bear::Tree;
using Chal = c::zk::air::sp1::baby_bear::Challenger;
using Proof = crypto::FRIProof<PCS::Base>;
using Digest = std::array<F, 8>;
using Bytes = std::vector<uint8_t>;
SIM_WARMUP(sp1) {
  // Twiddle factors stay in a cache: fill it for every size that is used.
  auto* p = SP1(two_adic_fri_create)(1, 1, 0);
  for (size_t n = 1; n <= 256; n *= 2) {
    std::vector<F> in(n), out(2 * n);
    F one = F::One();
    SP1(two_adic_fri_coset_lde_batch)(p, c_cast(in.data()), n, 1, c_cast(out.data()), c_cast(one));
  }
  SP1(two_adic_fri_destroy)(p);
}
namespace {
struct NoLeak {
  size_t before = sim::HeapLiveBlocks();
  void Check(const char* what) {
    size_t now = sim::HeapLiveBlocks();
    SIM_CHECK(now == before, "%s: %zu blocks are live instead of %zu", what, now, before);
  }
};
size_t Rev(size_t i, size_t log) { size_t r = 0; for (size_t k = 0; k < log; ++k) r |= (i >> k & 1) << (log - 1 - k); return r; }
F Gen() { return F::FromMontgomery(F::Config::kSubgroupGenerator); }
F Root(size_t n) { F w; SIM_REQUIRE(F::GetRootOfUnity(n, &w)); return w; }
std::vector<F> Coeffs(const std::vector<F>& v) {
  size_t n = v.size();
  F winv = *Root(n).Inverse(), ninv = *F(uint32_t(n)).Inverse();
  std::vector<F> c(n);
  F base = F::One();
  for (size_t k = 0; k < n; ++k, base *= winv) {
    F x = F::One(), s = F::Zero();
    for (size_t i = 0; i < n; ++i, x *= base) s += v[i] * x;
    c[k] = s * ninv;
  }
  return c;
}
template <typename E>
E At(const std::vector<F>& c, const E& x) {
  E s = E::Zero();
  for (size_t i = c.size(); i--;) s = s * x + E(c[i]);
  return s;
}

// ---- the bytes of a value: sizes as 64 bits, field elements as their Montgomery words ----
void Put(Bytes& b, const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
void Put(Bytes& b, uint64_t v) { Put(b, &v, 8); }
void Put(Bytes& b, const F& v) { uint32_t w = v.value(); Put(b, &w, 4); }
void Put(Bytes& b, const F4& v) { for (const F& x : v.ToBaseFields()) Put(b, x); }
void Put(Bytes& b, const Digest& v) { for (const F& x : v) Put(b, x); }
template <typename T>
void Put(Bytes& b, const std::vector<T>& v) { Put(b, (uint64_t)v.size()); for (const T& x : v) Put(b, x); }
Bytes Encode(const Proof& p) {
  Bytes b;
  Put(b, p.commit_phase_commits);
  Put(b, (uint64_t)p.query_proofs.size());
  for (const auto& q : p.query_proofs) {
    Put(b, (uint64_t)q.input_proof.size());
    for (const auto& o : q.input_proof) { Put(b, o.opened_values); Put(b, o.opening_proof); }
    Put(b, (uint64_t)q.commit_phase_openings.size());
    for (const auto& s : q.commit_phase_openings) { Put(b, s.sibling_value); Put(b, s.opening_proof); }
  }
  Put(b, p.final_eval);
  Put(b, p.pow_witness);
  return b;
}
// Hints: rows of blocks of four elements.
using Block = std::array<F, 4>;
struct Hints {
  std::vector<std::vector<Block>> rows;
  static Block B(const F& x) { return {x, F::Zero(), F::Zero(), F::Zero()}; }
  void Size(size_t n) { rows.push_back({B(F(uint32_t(n)))}); }
  void One(const F4& x) { auto a = x.ToBaseFields(); rows.push_back({Block{a[0], a[1], a[2], a[3]}}); }
  void One(const F& x) { rows.push_back({B(x)}); }
  template <typename V>
  void Row(const V& v, size_t pad = 0) {
    rows.emplace_back();
    for (const F& x : v) rows.back().push_back(B(x));
    while (rows.back().size() < pad) rows.back().push_back(B(F::Zero()));
  }
  template <typename V>
  void Rows(const V& v) { Size(v.size()); for (const auto& r : v) Row(r); }
  Bytes Encode() const {
    Bytes b;
    Put(b, (uint64_t)rows.size());
    for (const auto& r : rows) { Put(b, (uint64_t)r.size()); for (const auto& x : r) for (const F& e : x) Put(b, e); }
    return b;
  }
};
Bytes HintOf(const Proof& p) {
  Hints h;
  h.Rows(p.commit_phase_commits);
  h.Size(p.query_proofs.size());
  for (const auto& q : p.query_proofs) {
    h.Size(q.commit_phase_openings.size());
    for (const auto& s : q.commit_phase_openings) { h.One(s.sibling_value); h.Rows(s.opening_proof); }
  }
  h.One(p.final_eval);
  h.One(p.pow_witness);
  h.Size(p.query_proofs.size());
  for (const auto& q : p.query_proofs) {
    h.Size(q.input_proof.size());
    for (const auto& o : q.input_proof) { h.Rows(o.opened_values); h.Rows(o.opening_proof); }
  }
  return h.Encode();
}
Bytes HintOf(const Chal& c) {
  Hints h;
  h.Row(c.state().elements);
  h.Size(c.input_buffer().size());
  h.Row(c.input_buffer(), 16);
  h.Size(c.output_buffer().size());
  h.Row(c.output_buffer(), 16);
  return h.Encode();
}
// Asks for the size, then for the bytes, in a buffer with guards.
template <typename Fn>
Bytes Written(const char* what, Fn fn) {
  size_t len = 12345;
  fn((uint8_t*)nullptr, &len);
  Bytes b(len + 16, 0x5a);
  size_t again = 777;
  fn(b.data() + 8, &again);
  SIM_CHECK(again == len, "%s: %zu bytes, after announcing %zu", what, again, len);
  for (size_t i = 0; i < 8; ++i) SIM_CHECK(b[i] == 0x5a && b[len + 8 + i] == 0x5a, "%s: writes outside its %zu bytes", what, len);
  return Bytes(b.begin() + 8, b.end() - 8);
}

struct Case {
  uint32_t blowup, queries, pow;
  std::vector<std::vector<uint32_t>> logs;
  std::vector<std::vector<size_t>> cols, npoints;
  std::vector<std::vector<std::vector<std::vector<F>>>> coeffs;  // round, matrix, column
  std::vector<std::vector<std::vector<F>>> values, ldes;         // round, matrix; row major
  std::string shape;
};
Case Make(bool small) {
  Case c;
  c.blowup = sim::Chance(1, 2) ? 1 : sim::Range(1, 3);
  c.queries = sim::Range(1, 4);
  c.pow = sim::Chance(1, 3) ? 0 : sim::Range(1, 5);
  size_t rounds = sim::Range(1, small ? 2 : 3);
  uint32_t max = sim::Range(1, small ? 2 : 4);
  for (size_t r = 0; r < rounds; ++r) {
    size_t n = sim::Range(1, small ? 2 : 3);
    c.logs.emplace_back(); c.cols.emplace_back(); c.npoints.emplace_back(); c.coeffs.emplace_back(); c.values.emplace_back(); c.ldes.emplace_back();
    c.shape += "{";
    for (size_t i = 0; i < n; ++i) {
      c.logs[r].push_back(sim::Range(0, max));
      c.cols[r].push_back(sim::Range(1, sim::Chance(1, 4) ? 9 : 3));
      c.npoints[r].push_back(sim::Chance(1, 6) ? sim::Below(4) : 1);
      size_t rows = size_t{1} << c.logs[r][i], cols = c.cols[r][i];
      c.coeffs[r].emplace_back();
      c.values[r].push_back(std::vector<F>(rows * cols));
      for (size_t k = 0; k < cols; ++k) {
        auto v = vu::Vec<F>(rows);
        for (size_t j = 0; j < rows; ++j) c.values[r][i][j * cols + k] = v[j];
        c.coeffs[r][i].push_back(Coeffs(v));
      }
      c.ldes[r].push_back(std::vector<F>((rows << c.blowup) * cols));
      c.shape += " 2^" + std::to_string(c.logs[r][i]) + "x" + std::to_string(cols) + "@" + std::to_string(c.npoints[r][i]);
    }
    c.shape += " }";
  }
  c.shape += " blow-up 2^" + std::to_string(c.blowup) + ", " + std::to_string(c.queries) + " queries, " + std::to_string(c.pow) + " bits of work";
  return c;
}
F Shift() { return sim::Chance(1, 4) ? vu::NonZero<F>() : Gen(); }

// Everything one prover and verifier does through the C interface.
struct Session {
  Case& c;
  tachyon_sp1_baby_bear_poseidon2_two_adic_fri* pcs;
  tachyon_sp1_baby_bear_poseidon2_field_merkle_tree_vec* trees;
  tachyon_sp1_baby_bear_poseidon2_commitment_vec* commits;
  tachyon_sp1_baby_bear_poseidon2_domains* domains;
  tachyon_sp1_baby_bear_poseidon2_opening_points* points;
  tachyon_sp1_baby_bear_poseidon2_opened_values* opened;
  tachyon_sp1_baby_bear_poseidon2_fri_proof* proof;
  tachyon_sp1_baby_bear_poseidon2_duplex_challenger* start;  // what the verifier starts from
  std::vector<tachyon_sp1_baby_bear_poseidon2_field_merkle_tree*> tree;
  std::vector<Digest> roots;
  size_t rounds;
  explicit Session(Case& c) : c(c), rounds(c.logs.size()) {
    pcs = SP1(two_adic_fri_create)(c.blowup, c.queries, c.pow);
    trees = SP1(field_merkle_tree_vec_create)(rounds);
    commits = SP1(commitment_vec_create)(rounds);
    domains = SP1(domains_create)(rounds);
    points = SP1(opening_points_create)(rounds);
    opened = SP1(opened_values_create)(0);
    proof = SP1(fri_proof_create)();
    start = SP1(duplex_challenger_create)();
    roots.resize(rounds);
  }
  ~Session() {
    SP1(two_adic_fri_destroy)(pcs);
    SP1(field_merkle_tree_vec_destroy)(trees);
    for (auto* t : tree) SP1(field_merkle_tree_destroy)(t);
    SP1(commitment_vec_destroy)(commits);
    SP1(domains_destroy)(domains);
    SP1(opening_points_destroy)(points);
    SP1(opened_values_destroy)(opened);
    SP1(fri_proof_destroy)(proof);
    SP1(duplex_challenger_destroy)(start);
  }
  Session(const Session&) = delete;
  void Commit() {
    for (size_t r = 0; r < rounds; ++r) {
      auto* ldes = SP1(lde_vec_create)();
      SP1(domains_allocate)(domains, r, c.logs[r].size());
      for (size_t i = 0; i < c.logs[r].size(); ++i) {
        size_t log = c.logs[r][i], n = size_t{1} << log, cols = c.cols[r][i];
        std::vector<F> in = c.values[r][i];  // it may be overwritten
        F gen = Gen();
        SP1(two_adic_fri_coset_lde_batch)(pcs, c_cast(in.data()), n, cols, c_cast(c.ldes[r][i].data()), c_cast(gen));
        SP1(lde_vec_add)(ldes, c_cast(c.ldes[r][i].data()), n << c.blowup, cols);
        F one = F::One();
        SP1(domains_set)(domains, r, i, log, c_cast(&one));
      }
      tachyon_baby_bear root[8];
      tachyon_sp1_baby_bear_poseidon2_field_merkle_tree* t = nullptr;
      SP1(two_adic_fri_commit)(pcs, ldes, root, &t);
      tree.push_back(t);
      SP1(field_merkle_tree_vec_set)(trees, r, t);
      SP1(commitment_vec_set)(commits, r, root);
      for (size_t k = 0; k < 8; ++k) {
        roots[r][k] = native_cast(root[k]);
        SP1(duplex_challenger_observe)(start, &root[k]);
      }
      SP1(lde_vec_destroy)(ldes);
    }
  }
  std::vector<std::vector<std::vector<F4>>> want_points;
  void Points() {
    std::array<F, 4> z;
    for (auto& x : z) { auto s = SP1(duplex_challenger_sample)(start); x = native_cast(s); }
    F4 zeta = F4::FromBasePrimeFields(std::vector<F>(z.begin(), z.end()));
    want_points.resize(rounds);
    for (size_t r = 0; r < rounds; ++r) {
      // A rectangle, of which each row is cut to the points of the matrix.
      size_t widest = 0;
      for (size_t n : c.npoints[r]) widest = std::max(widest, n);
      bool even = true;
      for (size_t n : c.npoints[r]) even = even && n == widest;
      if (!even) for (auto& n : c.npoints[r]) n = widest;
      SP1(opening_points_allocate)(points, r, c.logs[r].size(), widest);
      for (size_t i = 0; i < c.logs[r].size(); ++i) {
        want_points[r].emplace_back();
        for (size_t k = 0; k < widest; ++k) {
          F4 p = k == 0 ? zeta : k == 1 ? zeta * F4(Root(size_t{1} << c.logs[r][i])) : zeta + F4(F(uint32_t(k)));
          want_points[r][i].push_back(p);
          SP1(opening_points_set)(points, r, i, k, c_cast(&p));
        }
      }
    }
  }
  void Open() {
    auto* prover = SP1(duplex_challenger_clone)(start);
    SP1(two_adic_fri_open)(pcs, trees, points, prover, &opened, &proof);
    SP1(duplex_challenger_destroy)(prover);
  }
  bool Verify(const tachyon_sp1_baby_bear_poseidon2_commitment_vec* commits, const tachyon_sp1_baby_bear_poseidon2_opening_points* points,
              const tachyon_sp1_baby_bear_poseidon2_opened_values* opened, const tachyon_sp1_baby_bear_poseidon2_fri_proof* proof) {
    auto* v = SP1(duplex_challenger_clone)(start);
    bool ok = SP1(two_adic_fri_verify)(pcs, commits, domains, points, opened, proof, v);
    SP1(duplex_challenger_destroy)(v);
    return ok;
  }
  void CheckOpened() {
    const auto& o = native_cast(*opened);
    SIM_REQUIRE(o.size() == rounds);
    for (size_t r = 0; r < rounds; ++r) {
      SIM_REQUIRE(o[r].size() == want_points[r].size());
      for (size_t i = 0; i < o[r].size(); ++i) {
        SIM_REQUIRE(o[r][i].size() == want_points[r][i].size());
        for (size_t k = 0; k < o[r][i].size(); ++k) {
          SIM_REQUIRE(o[r][i][k].size() == c.cols[r][i]);
          for (size_t col = 0; col < c.cols[r][i]; ++col)
            SIM_CHECK(o[r][i][k][col] == At(c.coeffs[r][i][col], want_points[r][i][k]), "%s: value of column %zu of matrix %zu of round %zu at point %zu", c.shape.c_str(), col, i, r, k);
        }
      }
    }
  }
};
// The same opened values, built element by element.
tachyon_sp1_baby_bear_poseidon2_opened_values* Rebuild(const std::vector<std::vector<std::vector<std::vector<F4>>>>& o) {
  auto* ret = SP1(opened_values_create)(o.size());
  for (size_t r = 0; r < o.size(); ++r) {
    size_t points = o[r].empty() ? 0 : o[r][0].size();
    SP1(opened_values_allocate_outer)(ret, r, o[r].size(), points);
    for (size_t i = 0; i < o[r].size(); ++i) {
      if (!o[r][i].empty()) SP1(opened_values_allocate_inner)(ret, r, i, o[r][i].size(), o[r][i][0].size());
      for (size_t k = 0; k < o[r][i].size(); ++k)
        for (size_t x = 0; x < o[r][i][k].size(); ++x) SP1(opened_values_set)(ret, r, i, k, x, c_cast(&o[r][i][k][x]));
    }
  }
  return ret;
}
}  // namespace

SIM_SCENARIO("C26", sp1_proofs, sim::kOmp | sim::kSameOutcome, 4, 3) {
  NoLeak leak;
  {
    Case c = Make(false);
    sim::Describe("%s", c.shape.c_str());
    Session s(c);
    // Any shift will do for an extension.
    {
      size_t r = sim::Below(s.rounds), i = sim::Below(c.logs[r].size()), log = c.logs[r][i] + c.blowup, n = size_t{1} << log, cols = c.cols[r][i];
      F shift = Shift(), w = Root(n);
      std::vector<F> in = c.values[r][i], out(n * cols + 2, Gen());
      SP1(two_adic_fri_coset_lde_batch)(s.pcs, c_cast(in.data()), n >> c.blowup, cols, c_cast(out.data() + 1), c_cast(shift));
      for (size_t row = 0; row < n; ++row)
        for (size_t col = 0; col < cols; ++col)
          SIM_CHECK(out[1 + row * cols + col] == At(c.coeffs[r][i][col], shift * vu::NaivePow(w, Rev(row, log))), "%s: extension of matrix %zu of round %zu at %zu,%zu", c.shape.c_str(), i, r, row, col);
      SIM_CHECK(out[0] == Gen() && out.back() == Gen(), "%s: an extension writes outside its matrix", c.shape.c_str());
    }
    s.Commit();
    for (const auto& d : s.roots) sim::OutcomeVal(d);
    // The native scheme commits to the same.
    size_t r = sim::Below(s.rounds);
    {
      std::vector<math::RowMajorMatrix<F>> ms;
      std::vector<c::zk::air::sp1::baby_bear::Coset> cosets;
      for (size_t i = 0; i < c.logs[r].size(); ++i) {
        size_t n = size_t{1} << c.logs[r][i];
        ms.push_back(Eigen::Map<const math::RowMajorMatrix<F>>(c.values[r][i].data(), n, c.cols[r][i]));
        cosets.push_back(native_cast(s.pcs)->GetNaturalDomainForDegree(n));
      }
      Digest root;
      Tree tree;
      SIM_REQUIRE(native_cast(s.pcs)->Commit(cosets, ms, &root, &tree));
      SIM_CHECK(root == s.roots[r], "%s: another commitment than the native one in round %zu", c.shape.c_str(), r);
      SIM_CHECK(tree == native_cast(*s.tree[r]), "%s: another tree than the native one in round %zu", c.shape.c_str(), r);
    }
    s.Points();
    s.Open();
    s.CheckOpened();
    const Proof& proof = native_cast(*s.proof);
    sim::OutcomeVal(proof.final_eval);
    SIM_REQUIRE(proof.query_proofs.size() == c.queries);
    SIM_CHECK(s.Verify(s.commits, s.points, s.opened, s.proof), "%s: the honest proof is rejected", c.shape.c_str());
    // Copies, and what is read back from bytes, are as good as the originals.
    Bytes b = Written("proof", [&](uint8_t* p, size_t* n) { SP1(fri_proof_serialize)(s.proof, p, n); });
    SIM_CHECK(b == Encode(proof), "%s: the bytes of the proof", c.shape.c_str());
    SIM_CHECK(Written("hint", [&](uint8_t* p, size_t* n) { SP1(fri_proof_write_hint)(s.proof, p, n); }) == HintOf(proof), "%s: the hint of the proof", c.shape.c_str());
    Bytes ob = Written("opened values", [&](uint8_t* p, size_t* n) { SP1(opened_values_serialize)(s.opened, p, n); }), want;
    Put(want, native_cast(*s.opened));
    SIM_CHECK(ob == want, "%s: the bytes of the opened values", c.shape.c_str());
    auto* read = SP1(fri_proof_deserialize)(b.data(), b.size());
    auto* copy = SP1(fri_proof_clone)(read);
    SIM_CHECK(native_cast(*read) == proof, "%s: another proof is read back", c.shape.c_str());
    SP1(fri_proof_destroy)(read);
    auto* opened = SP1(opened_values_clone)(s.opened);
    auto* rebuilt = Rebuild(native_cast(*s.opened));
    SIM_CHECK(native_cast(*rebuilt) == native_cast(*s.opened), "%s: other opened values are built", c.shape.c_str());
    auto* points = SP1(opening_points_clone)(s.points);
    SIM_CHECK(s.Verify(s.commits, points, opened, copy), "%s: a copy of the honest proof is rejected", c.shape.c_str());
    SIM_CHECK(s.Verify(s.commits, points, rebuilt, copy), "%s: the rebuilt opened values are rejected", c.shape.c_str());
    // A proof after another with the same scheme, out of trees that went through bytes.
    auto* trees = SP1(field_merkle_tree_vec_create)(s.rounds);
    std::vector<tachyon_sp1_baby_bear_poseidon2_field_merkle_tree*> own;
    for (size_t k = 0; k < s.rounds; ++k) {
      Bytes t = Written("tree", [&](uint8_t* p, size_t* n) { SP1(field_merkle_tree_serialize)(s.tree[k], p, n); });
      own.push_back(SP1(field_merkle_tree_deserialize)(t.data(), t.size()));
      SP1(field_merkle_tree_vec_set)(trees, k, own[k]);
    }
    {
      auto* v = SP1(duplex_challenger_clone)(s.start);
      auto* o2 = SP1(opened_values_create)(0);
      auto* p2 = SP1(fri_proof_create)();
      SP1(two_adic_fri_open)(s.pcs, trees, s.points, v, &o2, &p2);
      SIM_CHECK(native_cast(*o2) == native_cast(*s.opened), "%s: other values are opened the second time", c.shape.c_str());
      SIM_CHECK(s.Verify(s.commits, s.points, o2, p2), "%s: the second proof is rejected", c.shape.c_str());
      SP1(duplex_challenger_destroy)(v);
      SP1(opened_values_destroy)(o2);
      SP1(fri_proof_destroy)(p2);
    }
    SP1(field_merkle_tree_vec_destroy)(trees);
    for (auto* t : own) SP1(field_merkle_tree_destroy)(t);
    SP1(fri_proof_destroy)(copy);
    SP1(opened_values_destroy)(rebuilt);
    SP1(opening_points_destroy)(points);
    SP1(opened_values_destroy)(opened);
  }
  leak.Check("proofs");
}

SIM_SCENARIO("C26", sp1_changed, sim::kOmp, 2, 1) {
  Case c = Make(true);
  Session s(c);
  s.Commit();
  s.Points();
  s.Open();
  auto g = [](F4& x) { x += F4(vu::NonZero<F>()); };
  size_t r = sim::Below(s.rounds), i = sim::Below(c.logs[r].size());
  auto* opened = SP1(opened_values_clone)(s.opened);
  auto* proof = SP1(fri_proof_clone)(s.proof);
  const char* what = "";
  switch (sim::Below(4)) {
    case 0: {
      what = "opened value";
      if (s.want_points[r][i].empty()) return;
      size_t k = sim::Below(s.want_points[r][i].size()), x = sim::Below(c.cols[r][i]);
      F4 v = native_cast(*opened)[r][i][k][x];
      g(v);
      SP1(opened_values_set)(opened, r, i, k, x, c_cast(&v));
      break;
    }
    case 1: {
      what = "commitment";
      Digest d = s.roots[r];
      d[sim::Below(8)] += vu::NonZero<F>();
      SP1(commitment_vec_set)(s.commits, r, c_cast(d.data()));
      break;
    }
    case 2: what = "final value"; g(native_cast(proof)->final_eval); break;
    case 3: {
      what = "point";
      if (s.want_points[r][i].empty()) return;
      size_t k = sim::Below(s.want_points[r][i].size());
      bool constant = c.logs[r][i] == 0;  // has the same value everywhere
      if (constant) return;
      for (const auto& p : c.coeffs[r][i]) {
        bool flat = true;
        for (size_t x = 1; x < p.size(); ++x) flat = flat && p[x].IsZero();
        if (flat) return;
      }
      F4 p = s.want_points[r][i][k] + F4(vu::NonZero<F>());
      for (const auto& col : c.coeffs[r][i]) if (At(col, p) == At(col, s.want_points[r][i][k])) return;
      SP1(opening_points_set)(s.points, r, i, k, c_cast(&p));
      break;
    }
  }
  sim::Describe("%s with a changed %s", c.shape.c_str(), what);
  sim::Count("tampered proofs");
  if (sim::AcceptsOrAborts([&] { return s.Verify(s.commits, s.points, opened, proof); }))
    sim::Fail("%s: accepted with a changed %s", c.shape.c_str(), what);
}

SIM_SCENARIO("C26", sp1_challenger, 0, 2, 1) {
  NoLeak leak;
  {
    auto* handle = SP1(duplex_challenger_create)();
    // A sponge whose inputs overwrite the rate, and whose outputs are taken from its end.
    math::Matrix<F> ark(21, 16);
    for (Eigen::Index r = 0; r < ark.rows(); ++r)
      for (Eigen::Index i = 0; i < ark.cols(); ++i) ark(r, i) = F(kRoundConstants[r][i] % F::Config::kModulus);
    using Permutation = c::zk::air::sp1::baby_bear::Poseidon2;
    Permutation sponge(crypto::Poseidon2Config<c::zk::air::sp1::baby_bear::Params>::CreateDefault(std::move(ark)));
    auto state = native_cast(handle)->state();
    for (auto& x : state.elements) SIM_REQUIRE(x.IsZero());
    std::vector<F> in, out;
    auto duplex = [&] {
      for (size_t i = 0; i < in.size(); ++i) state.elements[i] = in[i];
      in.clear();
      sponge.Permute(state);
      out.assign(state.elements.begin(), state.elements.begin() + state.elements.size());
    };
    std::vector<std::pair<decltype(handle), F>> clones;
    size_t steps = sim::Range(1, 60);
    for (size_t k = 0; k < steps; ++k) {
      switch (sim::Below(8)) {
        case 0: case 1: case 2: case 3: {
          F v = vu::Elem<F>();
          SP1(duplex_challenger_observe)(handle, c_cast(&v));
          out.clear();
          in.push_back(v);
          if (in.size() == 8) duplex();
          break;
        }
        case 4: case 5: {
          if (!in.empty() || out.empty()) duplex();
          auto got = SP1(duplex_challenger_sample)(handle);
          SIM_CHECK(native_cast(got) == out.back(), "another sample at step %zu", k);
          out.pop_back();
          break;
        }
        case 6: {  // the clone goes on, the original does not change; or the other way around
          auto* other = SP1(duplex_challenger_clone)(handle);
          if (sim::Chance(1, 2)) std::swap(other, handle);
          for (size_t j = sim::Below(20); j--;) {
            F v = vu::Elem<F>();
            if (sim::Chance(1, 2)) SP1(duplex_challenger_observe)(other, c_cast(&v));
            else SP1(duplex_challenger_sample)(other);
          }
          SP1(duplex_challenger_destroy)(other);
          break;
        }
        case 7:
          SIM_CHECK(Written("hint", [&](uint8_t* p, size_t* n) { SP1(duplex_challenger_write_hint)(handle, p, n); }) == HintOf(*native_cast(handle)), "the hint at step %zu", k);
          break;
      }
    }
    SP1(duplex_challenger_destroy)(handle);
  }
  leak.Check("challengers");
}

namespace {
// A tree over small matrices, which the caller keeps.
struct Grown {
  std::vector<std::vector<F>> leaves;
  std::vector<size_t> cols;
  tachyon_sp1_baby_bear_poseidon2_field_merkle_tree* tree = nullptr;
  Bytes bytes;  // of the tree
};
Grown Grow(tachyon_sp1_baby_bear_poseidon2_two_adic_fri* pcs) {
  Grown g;
  auto* ldes = SP1(lde_vec_create)();
  size_t n = sim::Range(1, 3);
  for (size_t i = 0; i < n; ++i) {
    size_t rows = size_t{1} << sim::Range(0, 3), cols = sim::Range(1, 4);
    g.leaves.push_back(vu::Vec<F>(rows * cols));
    g.cols.push_back(cols);
  }
  for (size_t i = 0; i < n; ++i) SP1(lde_vec_add)(ldes, c_cast(g.leaves[i].data()), g.leaves[i].size() / g.cols[i], g.cols[i]);
  tachyon_baby_bear root[8];
  SP1(two_adic_fri_commit)(pcs, ldes, root, &g.tree);
  for (size_t i = 0; i < 8; ++i) SIM_CHECK(native_cast(root[i]) == native_cast(*g.tree).GetRoot()[i], "the commitment is not the root of the tree");
  SP1(lde_vec_destroy)(ldes);
  Put(g.bytes, (uint64_t)n);
  for (size_t i = 0; i < n; ++i) {
    Put(g.bytes, (uint64_t)(g.leaves[i].size() / g.cols[i]));
    Put(g.bytes, (uint64_t)g.cols[i]);
    for (const F& x : g.leaves[i]) Put(g.bytes, x);
  }
  Put(g.bytes, native_cast(*g.tree).digest_layers());
  return g;
}
Bytes BytesOf(const tachyon_sp1_baby_bear_poseidon2_field_merkle_tree* t) {
  return Written("tree", [&](uint8_t* p, size_t* n) { SP1(field_merkle_tree_serialize)(t, p, n); });
}
}  // namespace
// Copies of a tree live and die independently of each other.
SIM_SCENARIO("C26", sp1_trees, sim::kOmp, 2, 2) {
  NoLeak leak;
  {
    auto* pcs = SP1(two_adic_fri_create)(1, 1, 0);
    Grown g = Grow(pcs);
    SIM_CHECK(BytesOf(g.tree) == g.bytes, "the bytes of the tree");
    struct Copy { tachyon_sp1_baby_bear_poseidon2_field_merkle_tree* t; bool owns; };
    std::vector<Copy> live{{g.tree, false}};
    for (size_t k = sim::Range(1, 12); k--;) {
      size_t i = sim::Below(live.size());
      switch (sim::Below(4)) {
        case 0: {
          Bytes b = BytesOf(live[i].t);
          live.push_back({SP1(field_merkle_tree_deserialize)(b.data(), b.size()), true});
          break;
        }
        case 1: live.push_back({SP1(field_merkle_tree_clone)(live[i].t), live[i].owns}); break;
        case 2:
          if (live.size() == 1) break;
          SP1(field_merkle_tree_destroy)(live[i].t);
          live.erase(live.begin() + i);
          break;
        case 3: {
          size_t n = sim::Range(1, 3);
          auto* v = SP1(field_merkle_tree_vec_create)(n);
          for (size_t r = 0; r < n; ++r) SP1(field_merkle_tree_vec_set)(v, r, live[sim::Below(live.size())].t);
          auto* w = SP1(field_merkle_tree_vec_clone)(v);
          SP1(field_merkle_tree_vec_destroy)(v);
          // The copies in the clone belong to the caller.
          for (const Tree* t : native_cast(*w)) live.push_back({const_cast<tachyon_sp1_baby_bear_poseidon2_field_merkle_tree*>(c_cast(t)), true});
          SP1(field_merkle_tree_vec_destroy)(w);
          break;
        }
      }
      for (size_t j = 0; j < live.size(); ++j) SIM_CHECK(BytesOf(live[j].t) == g.bytes, "copy %zu of a tree changed", j);
    }
    for (auto& x : live) SP1(field_merkle_tree_destroy)(x.t);
    SP1(two_adic_fri_destroy)(pcs);
  }
  leak.Check("trees");
}

// Threads that write, read and hint objects of their own, next to others that
// write field elements as numbers.
SIM_SCENARIO("C26", sp1_threads, sim::kMt, 4, 4) {
  Case c = Make(true);
  c.queries = 1;
  Session s(c);
  s.Commit();
  s.Points();
  s.Open();
  const Proof& proof = native_cast(*s.proof);
  Bytes pb = Encode(proof), ph = HintOf(proof), ch = HintOf(*native_cast(s.start)), ob;
  Put(ob, native_cast(*s.opened));
  Bytes tb = BytesOf(s.tree[0]);
  auto plain = vu::Vec<F>(sim::Range(1, 40));
  std::vector<std::thread> threads;
  size_t n = sim::Range(2, 4);
  for (size_t t = 0; t < n; ++t) {
    int kind = (int)sim::Below(7);
    threads.emplace_back([&, kind] {
      switch (kind) {
        case 0: SIM_CHECK(Written("proof", [&](uint8_t* p, size_t* n) { SP1(fri_proof_serialize)(s.proof, p, n); }) == pb, "the bytes of a proof, written next to other threads"); break;
        case 1: SIM_CHECK(Written("hint", [&](uint8_t* p, size_t* n) { SP1(fri_proof_write_hint)(s.proof, p, n); }) == ph, "the hint of a proof, written next to other threads"); break;
        case 2: SIM_CHECK(Written("hint", [&](uint8_t* p, size_t* n) { SP1(duplex_challenger_write_hint)(s.start, p, n); }) == ch, "the hint of a challenger, written next to other threads"); break;
        case 3: SIM_CHECK(Written("opened values", [&](uint8_t* p, size_t* n) { SP1(opened_values_serialize)(s.opened, p, n); }) == ob, "the opened values, written next to other threads"); break;
        case 4: {
          auto* got = SP1(fri_proof_deserialize)(pb.data(), pb.size());
          SIM_CHECK(native_cast(*got) == proof, "a proof, read next to other threads");
          SP1(fri_proof_destroy)(got);
          break;
        }
        case 5: {
          auto* got = SP1(field_merkle_tree_deserialize)(tb.data(), tb.size());
          SIM_CHECK(BytesOf(got) == tb, "a tree, read and written next to other threads");
          SP1(field_merkle_tree_destroy)(got);
          break;
        }
        case 6: {
          base::Uint8VectorBuffer b;
          SIM_REQUIRE(b.Grow(base::EstimateSize(plain)));
          SIM_REQUIRE(b.Write(plain));
          for (size_t i = 0; i < plain.size(); ++i) {
            uint32_t w;
            memcpy(&w, b.owned_buffer().data() + 8 + 4 * i, 4);
            SIM_CHECK(F(w) == plain[i] && w == plain[i].ToBigInt()[0], "an element, written as a number next to other threads");
          }
          b.set_buffer_offset(0);
          std::vector<F> back;
          SIM_REQUIRE(b.Read(&back));
          SIM_CHECK(back == plain, "elements, read as numbers next to other threads");
          break;
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  base::Uint8VectorBuffer b;
  SIM_REQUIRE(b.Grow(4) && b.Write(plain[0]));
  uint32_t w;
  memcpy(&w, b.owned_buffer().data(), 4);
  SIM_CHECK(w == plain[0].ToBigInt()[0], "an element, written as a number after other threads");
}

SIM_SCENARIO("C26", sp1_refused, 0, 1, 1) {
  auto* pcs = SP1(two_adic_fri_create)(1, 1, 0);
  if (sim::Chance(1, 2)) {
    Grown g = Grow(pcs);
    g.bytes.resize(sim::Below(g.bytes.size()));
    sim::MustAbort("a tree from truncated bytes", [&] { SP1(field_merkle_tree_deserialize)(g.bytes.data(), g.bytes.size()); });
  } else {
    Case c = Make(true);
    Session s(c);
    s.Commit();
    s.Points();
    s.Open();
    Bytes b = Encode(native_cast(*s.proof));
    if (sim::Chance(1, 2)) b.resize(sim::Below(b.size()));
    else { uint32_t big = F::Config::kModulus + (uint32_t)sim::Below(100); memcpy(b.data() + b.size() - 4, &big, 4); }
    sim::MustAbort("a proof from truncated bytes or with an element out of range", [&] { SP1(fri_proof_deserialize)(b.data(), b.size()); });
  }
}
