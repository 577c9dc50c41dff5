// C09: Merkle commitments.
#include <array>
#include <map>
#include <thread>
#include "util.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"

using namespace tachyon;
using namespace tachyon::crypto;
using F = math::BabyBear;
using PF = math::PackedBabyBear;
using F4 = math::BabyBear4;
SIM_WARMUP(fields) {
  F::Init();
  PF::Init();
  F4::Init();
  LOG(ERROR) << "warm up";
}
namespace {
// ---- binary trees over a toy hash -------------------------------------------------
uint64_t Mix(uint64_t x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; return x ^ x >> 33; }
uint64_t Leaf(uint64_t x) { return Mix(x + 0x1234567); }
uint64_t Parent(uint64_t a, uint64_t b) { return Mix(a * 3 + Mix(b + 77) + 5); }
struct ToyHasher : BinaryMerkleHasher<uint64_t, uint64_t> {
  uint64_t ComputeLeafHash(const uint64_t& x) const override { return Leaf(x); }
  uint64_t ComputeParentHash(const uint64_t& a, const uint64_t& b) const override { return Parent(a, b); }
};
uint64_t NaiveRoot(std::vector<uint64_t> v) {
  for (auto& x : v) x = Leaf(x);
  while (v.size() > 1) {
    std::vector<uint64_t> n;
    for (size_t i = 0; i < v.size(); i += 2) n.push_back(Parent(v[i], v[i + 1]));
    v = n;
  }
  return v[0];
}

// ---- mixed matrices ------------------------------------------------------------------
constexpr size_t kChunk = 8;
using P2 = Poseidon2Sponge<Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, F, 15, 7>>;
using PP2 = Poseidon2Sponge<Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, PF, 15, 7>>;
using H = PaddingFreeSponge<P2, 8, kChunk>;
using PH = PaddingFreeSponge<PP2, 8, kChunk>;
using C = TruncatedPermutation<P2, kChunk, 2>;
using PC = TruncatedPermutation<PP2, kChunk, 2>;
using Digest = std::array<F, kChunk>;
template <typename E>
using Inner = FieldMerkleTreeMMCS<E, H, PH, C, PC, kChunk>;
using Ext = ExtensionFieldMerkleTreeMMCS<F4, Inner<F4>>;

Digest HashRow(const P2& p, const std::vector<F>& in) {
  SpongeState<P2::Params> s;
  for (size_t i = 0; i < in.size(); ++i) {
    s[i % 8] = in[i];
    if (i % 8 == 7 || i + 1 == in.size()) p.Permute(s);
  }
  Digest d;
  for (size_t i = 0; i < kChunk; ++i) d[i] = s[i];
  return d;
}
Digest Join(const P2& p, const Digest& a, const Digest& b) {
  SpongeState<P2::Params> s;
  for (size_t i = 0; i < kChunk; ++i) { s[i] = a[i]; s[kChunk + i] = b[i]; }
  p.Permute(s);
  Digest d;
  for (size_t i = 0; i < kChunk; ++i) d[i] = s[i];
  return d;
}
void Flat(const F& x, std::vector<F>* out) { out->push_back(x); }
void Flat(const F4& x, std::vector<F>* out) { for (size_t i = 0; i < 4; ++i) out->push_back(x[i]); }
size_t Ceil2(size_t n) { size_t r = 1; while (r < n) r *= 2; return r; }

template <typename E>
struct Mat {
  size_t rows, cols;
  std::vector<E> v;
  const E& At(size_t r, size_t c) const { return v[r * cols + c]; }
};
template <typename E>
math::RowMajorMatrix<E> Own(const Mat<E>& m) {
  math::RowMajorMatrix<E> r(m.rows, m.cols);
  for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) r(i, j) = m.At(i, j);
  return r;
}
// By the definition, sequentially and with single values.
template <typename E>
Digest NaiveTree(const P2& p, const std::vector<Mat<E>>& ms) {
  size_t top = 0;
  for (const auto& m : ms) top = std::max(top, Ceil2(m.rows));
  auto row = [&](size_t height, size_t r, bool* any) {
    std::vector<F> in;
    *any = false;
    for (const auto& m : ms) if (Ceil2(m.rows) == height) {
      *any = true;
      if (r < m.rows) for (size_t c = 0; c < m.cols; ++c) Flat(m.At(r, c), &in);
    }
    return in;
  };
  auto has = [&](size_t height, size_t r) {
    for (const auto& m : ms) if (Ceil2(m.rows) == height) return r < m.rows;
    return false;
  };
  Digest zero;
  zero.fill(F::Zero());
  std::vector<Digest> l(top, zero);
  bool any;
  for (size_t r = 0; r < top; ++r) {
    auto in = row(top, r, &any);
    if (has(top, r)) l[r] = HashRow(p, in);
  }
  while (l.size() > 1) {
    std::vector<Digest> n;
    for (size_t i = 0; i < l.size() / 2; ++i) {
      Digest d = Join(p, l[2 * i], l[2 * i + 1]);
      auto in = row(l.size() / 2, i, &any);
      if (any) d = Join(p, d, has(l.size() / 2, i) ? HashRow(p, in) : zero);
      n.push_back(d);
    }
    l = n;
  }
  return l[0];
}
template <typename E>
std::vector<Mat<E>> Matrices(bool powers) {
  std::vector<Mat<E>> ms;
  std::map<size_t, size_t> height;  // of each power of two
  size_t n = sim::Range(1, 5), max = sim::Range(0, sim::Chance(1, 6) ? 6 : 4);
  for (size_t k = 0; k < n; ++k) {
    size_t c = size_t{1} << sim::Range(0, max);
    if (!height.count(c)) height[c] = powers || c == 1 || sim::Chance(1, 3) ? c : sim::Range(c / 2 + 1, c);
    Mat<E> m{height[c], (size_t)sim::Range(1, sim::Chance(1, 4) ? 20 : 4), {}};
    m.v = vu::Vec<E>(m.rows * m.cols);
    ms.push_back(m);
  }
  return ms;
}
// A value that differs from |x|.
template <typename E>
E Other(const E& x) { return x + vu::NonZero<E>(); }

template <typename E, typename M>
void Mixed(const M& mmcs) {
  P2 p;
  bool powers = sim::Chance(1, 2);
  auto ms = Matrices<E>(powers);
  std::vector<math::RowMajorMatrix<E>> own;
  std::string shape;
  size_t height = 0;
  for (const auto& m : ms) { own.push_back(Own(m)); shape += std::to_string(m.rows) + "x" + std::to_string(m.cols) + " "; height = std::max(height, m.rows); }
  size_t padded = Ceil2(height), log = 0;
  while (padded >> (log + 1)) ++log;
  sim::Describe("matrices %s", shape.c_str());
  Digest root;
  typename M::ProverData data;
  bool owned = sim::Chance(1, 2);
  if (owned) {
    auto copy = own;
    SIM_REQUIRE(mmcs.CommitOwned(std::move(copy), &root, &data));
  } else {
    std::vector<Eigen::Map<const math::RowMajorMatrix<E>>> maps;
    for (const auto& m : own) maps.emplace_back(m.data(), m.rows(), m.cols());
    SIM_REQUIRE(mmcs.Commit(std::move(maps), &root, &data));
  }
  sim::OutcomeVal(root);
  Digest want = NaiveTree(p, ms);
  SIM_CHECK(root == want, "%s: the root is not the one the matrices define", shape.c_str());
  SIM_CHECK(data.GetRoot() == root, "%s: the prover keeps another root", shape.c_str());
  const auto& kept = mmcs.GetMatrices(data);
  SIM_REQUIRE(kept.size() == ms.size());
  for (size_t k = 0; k < ms.size(); ++k)
    for (size_t r = 0; r < ms[k].rows; ++r) for (size_t c = 0; c < ms[k].cols; ++c)
      SIM_CHECK(kept[k](r, c) == ms[k].At(r, c), "matrix %zu differs from the committed one", k);
  SIM_REQUIRE(mmcs.GetMaxRowSize(data) == height);

  if (sim::Chance(1, 6)) {  // the prover's data can be stored and taken up again
    base::Uint8VectorBuffer b;
    SIM_REQUIRE(b.Grow(base::EstimateSize(data)));
    SIM_REQUIRE(b.Write(data));
    SIM_CHECK(b.Done(), "a stored tree takes %zu bytes, estimated %zu", b.buffer_offset(), b.buffer_len());
    b.set_buffer_offset(0);
    typename M::ProverData back;
    SIM_REQUIRE(b.Read(&back));
    SIM_CHECK(back == data, "%s: a stored tree comes back different", shape.c_str());
    data = std::move(back);
    sim::Count("trees stored and read");
  }

  std::vector<math::Dimensions> dims;
  for (const auto& m : ms) dims.push_back({m.cols, m.rows});
  for (int round = 0; round < 3; ++round) {
    size_t index = sim::Chance(1, 5) ? height + sim::Below(4) * (round + 1) : sim::Below(height);
    bool inside = index < height;
    for (const auto& m : ms) if ((index >> (log - __builtin_ctzll(Ceil2(m.rows)))) >= m.rows) inside = false;
    std::vector<std::vector<E>> opened;
    typename M::Proof proof;
    bool ok = mmcs.CreateOpeningProof(index, data, &opened, &proof);
    SIM_CHECK(ok == inside, "%s: opening row %zu: %d", shape.c_str(), index, ok);
    if (!ok) { sim::Count("openings outside refused"); continue; }
    SIM_REQUIRE(opened.size() == ms.size());
    for (size_t k = 0; k < ms.size(); ++k) {
      size_t r = index >> (log - __builtin_ctzll(Ceil2(ms[k].rows)));
      SIM_REQUIRE(opened[k].size() == ms[k].cols);
      for (size_t c = 0; c < ms[k].cols; ++c)
        SIM_CHECK(opened[k][c] == ms[k].At(r, c), "%s: opening row %zu of matrix %zu", shape.c_str(), index, k);
    }
    SIM_REQUIRE(proof.size() == log);
    SIM_CHECK(mmcs.VerifyOpeningProof(root, dims, index, opened, proof), "%s: the honest opening of row %zu is rejected", shape.c_str(), index);
    // One thing changed.
    Digest root2 = root;
    auto dims2 = dims;
    size_t index2 = index;
    auto opened2 = opened;
    auto proof2 = proof;
    const char* what = "";
    switch (sim::Below(12)) {
      case 0: what = "root"; { F& x = root2[sim::Below(kChunk)]; x = Other(x); } break;
      case 1: what = "opened value"; { auto& o = opened2[sim::Below(opened2.size())]; E& x = o[sim::Below(o.size())]; x = Other(x); } break;
      case 2: what = "sibling"; if (log) { F& x = proof2[sim::Below(log)][sim::Below(kChunk)]; x = Other(x); } break;
      case 3: what = "index"; index2 = sim::Below(padded); break;
      case 4: what = "index beyond the tree"; index2 += padded << sim::Below(4); break;
      case 5: what = "sibling removed"; if (log) proof2.erase(proof2.begin() + sim::Below(log)); break;
      case 6: what = "sibling added"; proof2.insert(proof2.begin() + sim::Below(log + 1), log ? proof2[sim::Below(log)] : root); break;
      case 7: what = "siblings swapped"; if (log) std::swap(proof2[sim::Below(log)], proof2[sim::Below(log)]); break;
      case 8: what = "matrix not opened"; opened2.erase(opened2.begin() + sim::Below(opened2.size())); break;
      case 9: what = "one matrix too many opened"; opened2.push_back(opened2[0]); break;
      case 10: what = "another matrix height"; { auto& d = dims2[sim::Below(dims2.size())]; d.height = d.height == 1 || sim::Chance(1, 2) ? Ceil2(d.height) * 2 : Ceil2(d.height) / 2; } break;
      case 11: what = "nothing opened"; opened2.clear(); dims2.clear(); break;
    }
    bool same = root2 == root && index2 == index && opened2 == opened && proof2 == proof && dims2 == dims;
    // An index that leads to the same place, with the same siblings on the same
    // sides, can only be itself; but equal data under equal siblings may make a
    // swap or another index true as well.
    bool may = same;
    // The sponge does not pad: trailing zeros do not change a hash.
    if (dims2 != dims && dims2.size()) for (const auto& o : opened) for (const E& x : o) if (x.IsZero()) may = true;
    if (!may && index2 != index && index2 < padded && index2 < height) {
      std::vector<std::vector<E>> o3;
      typename M::Proof p3;
      bool in3 = true;
      for (const auto& m : ms) if ((index2 >> (log - __builtin_ctzll(Ceil2(m.rows)))) >= m.rows) in3 = false;
      if (in3) {
        SIM_REQUIRE(mmcs.CreateOpeningProof(index2, data, &o3, &p3));
        may = o3 == opened && p3 == proof;
      }
    }
    bool accepted = mmcs.VerifyOpeningProof(root2, dims2, index2, opened2, proof2);
    if (same) { SIM_CHECK(accepted, "%s: rejected", shape.c_str()); continue; }
    if (may) continue;
    SIM_CHECK(!accepted, "%s: opening of row %zu accepted with a changed part: %s", shape.c_str(), index, what);
    sim::Count("tampered openings");
  }
}
}  // namespace

SIM_SCENARIO("C09", binary, sim::kOmp | sim::kSameOutcome, 2, 5) {
  using Tree = BinaryMerkleTree<uint64_t, uint64_t, 256>;
  SimpleBinaryMerkleTreeStorage<uint64_t> storage;
  ToyHasher hasher;
  Tree tree(&storage, &hasher);
  int commits = sim::Chance(1, 3) ? 2 + static_cast<int>(sim::Below(2)) : 1;  // one storage, committed to again
  for (int commit = 0; commit < commits; ++commit) {
  size_t n = size_t{1} << sim::Range(0, sim::Chance(1, 4) ? 8 : 5), par = size_t{1} << sim::Below(8);
  bool bad = sim::Chance(1, 12);
  if (bad) n = sim::Pick({0, 3, 6, 257, 512, 300});
  sim::Describe("%zu leaves, parallel from %zu, commitment %d of %d", n, par, commit + 1, commits);
  std::vector<uint64_t> leaves(n);
  for (auto& x : leaves) x = sim::Chance(1, 4) ? 7 : sim::Rand();
  if (sim::Chance(3, 4)) tree.set_leaves_size_for_parallelization(par);
  uint64_t root = 0;
  bool ok = tree.Commit(leaves, &root);
  if (bad) {
    SIM_CHECK(!ok, "%zu leaves accepted", n);
    continue;
  }
  SIM_REQUIRE(ok);
  sim::OutcomeVal(root);
  SIM_CHECK(root == NaiveRoot(leaves), "the root of %zu leaves (parallel from %zu) is wrong", n, par);
  for (int round = 0; round < 4; ++round) {
    size_t index = sim::Chance(1, 6) ? n + sim::Below(n + 2) : sim::Below(n);
    BinaryMerkleProof<uint64_t> proof;
    ok = tree.CreateOpeningProof(index, &proof);
    SIM_CHECK(ok == (index < n), "opening leaf %zu of %zu: %d", index, n, ok);
    if (!ok) continue;
    SIM_REQUIRE((size_t{1} << proof.paths.size()) == n);
    uint64_t leaf = Leaf(leaves[index]);
    SIM_CHECK(tree.VerifyOpeningProof(root, leaf, proof), "the honest opening of leaf %zu of %zu is rejected", index, n);
    for (size_t i = 0, at = index; i < proof.paths.size(); ++i, at >>= 1)
      SIM_CHECK(proof.paths[i].left == (at & 1), "side of sibling %zu of leaf %zu", i, index);
    auto p2 = proof;
    uint64_t r2 = root, l2 = leaf;
    size_t k = n > 1 ? sim::Below(proof.paths.size()) : 0;
    switch (n > 1 ? sim::Below(6) : sim::Below(2)) {
      case 0: r2 ^= 1ull << sim::Below(64); break;
      case 1: l2 ^= 1ull << sim::Below(64); break;
      case 2: p2.paths[k].hash ^= 1ull << sim::Below(64); break;
      case 3:
        p2.paths[k].left = !p2.paths[k].left;
        for (size_t i = 0, at = index; i <= k; ++i, at >>= 1) {
          // equal subtrees are the same either way round
          std::vector<uint64_t> a, b;
          size_t from = at << i;
          if (i < k) continue;
          for (size_t j = 0; j < size_t{1} << i; ++j) { a.push_back(leaves[from + j]); b.push_back(leaves[(from ^ (size_t{1} << i)) + j]); }
          if (a == b) p2.paths[k].hash ^= 1;
        }
        break;
      case 4: p2.paths.erase(p2.paths.begin() + k); break;
      case 5: p2.paths.push_back(p2.paths[k]); break;
    }
    SIM_CHECK(!tree.VerifyOpeningProof(r2, l2, p2), "a changed opening of leaf %zu of %zu is accepted", index, n);
    sim::Count("tampered openings");
  }
  }
}
SIM_SCENARIO("C09", matrices, sim::kOmp | sim::kSameOutcome, 3, 4) { Mixed<F>(Inner<F>()); }
SIM_SCENARIO("C09", extension_matrices, sim::kOmp | sim::kSameOutcome, 2, 4) {
  if (sim::Chance(1, 2)) Mixed<F4>(Ext(Inner<F4>()));
  else Mixed<F4>(Inner<F4>());
}
// Heights that round up to the same power of two cannot be told apart.
SIM_SCENARIO("C09", ambiguous_heights, sim::kOmp, 1, 3) {
  Inner<F> mmcs;
  size_t c = size_t{1} << sim::Range(2, 5), a = sim::Range(c / 2 + 1, c), b = sim::Range(c / 2 + 1, c - 1);
  if (b >= a) ++b;
  std::vector<size_t> heights = {a, b};
  for (size_t k = sim::Below(3); k--;) heights.insert(heights.begin() + sim::Below(heights.size() + 1), sim::Chance(1, 2) ? c * 2 : c / 2);
  std::vector<math::RowMajorMatrix<F>> own;
  for (size_t h : heights) own.push_back(Own(Mat<F>{h, 2, vu::Vec<F>(h * 2)}));
  sim::Describe("heights %zu and %zu among %zu", a, b, heights.size());
  Digest root;
  FieldMerkleTree<F, kChunk> data;
  SIM_CHECK(!mmcs.CommitOwned(std::move(own), &root, &data), "matrices of %zu and %zu rows were committed to together", a, b);
}
// Several threads open one commitment at once.
SIM_SCENARIO("C09", shared, sim::kOmp | sim::kMt | sim::kSameOutcome, 1, 4) {
  Inner<F> mmcs;
  auto ms = Matrices<F>(true);
  std::vector<math::RowMajorMatrix<F>> own;
  std::vector<math::Dimensions> dims;
  size_t height = 0;
  for (const auto& m : ms) { own.push_back(Own(m)); dims.push_back({m.cols, m.rows}); height = std::max(height, m.rows); }
  Digest root;
  FieldMerkleTree<F, kChunk> data;
  SIM_REQUIRE(mmcs.CommitOwned(std::move(own), &root, &data));
  std::vector<size_t> idx(4);
  for (auto& i : idx) i = sim::Below(height);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < 2; ++t) ts.emplace_back([&, t] {
    for (size_t k = t; k < 4; k += 2) {
      std::vector<std::vector<F>> opened;
      std::vector<Digest> proof;
      SIM_REQUIRE(mmcs.CreateOpeningProof(idx[k], data, &opened, &proof));
      SIM_CHECK(mmcs.VerifyOpeningProof(root, dims, idx[k], opened, proof), "row %zu", idx[k]);
      sim::Yield();
    }
  });
  for (auto& t : ts) t.join();
}
// Values moved from one row to the next of the same height are hashed the same:
// only the widths tell them apart.
SIM_SCENARIO("C09", row_widths, sim::kOmp, 1, 2) {
  Inner<F> mmcs;
  size_t h = sim::Range(1, 5), a = sim::Range(1, 4), b = sim::Range(1, 4);
  std::vector<math::RowMajorMatrix<F>> own;
  for (size_t w : {a, b}) own.push_back(Own(Mat<F>{h, w, vu::Vec<F>(h * w)}));
  Digest root;
  FieldMerkleTree<F, kChunk> data;
  SIM_REQUIRE(mmcs.CommitOwned(std::move(own), &root, &data));
  size_t index = sim::Below(h);
  std::vector<std::vector<F>> opened;
  std::vector<Digest> proof;
  SIM_REQUIRE(mmcs.CreateOpeningProof(index, data, &opened, &proof));
  std::vector<math::Dimensions> dims = {{a, h}, {b, h}};
  SIM_REQUIRE(mmcs.VerifyOpeningProof(root, dims, index, opened, proof));
  opened[1].insert(opened[1].begin(), opened[0].back());
  opened[0].pop_back();
  SIM_CHECK(!mmcs.VerifyOpeningProof(root, dims, index, opened, proof), "opened rows of other widths than stated are accepted");
}
