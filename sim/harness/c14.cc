// C14: matrix products and conversions equal their definitions.
#include "util.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"

#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"

using namespace tachyon;
using namespace tachyon::math;
using Fr = bn254::Fr;

SIM_WARMUP(fields) {
  Fr::Init();
  BabyBear::Init();
  BabyBear4::Init();
  GF7::Init();
  PackedBabyBear::Init();
  PackedBabyBear4::Init();
  math::KoalaBear::Init();
  math::PackedKoalaBear::Init();
}

namespace {
// The reference: a plain table of values.
template <typename F>
struct Tab {
  size_t r, c;
  std::vector<F> v;
  Tab(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, F::Zero()) {}
  F& at(size_t i, size_t j) { return v[i * c + j]; }
  const F& at(size_t i, size_t j) const { return v[i * c + j]; }
};
template <typename F>
Tab<F> Rnd(size_t r, size_t c) {
  Tab<F> t(r, c);
  t.v = vu::Vec<F>(r * c);
  return t;
}
template <typename M, typename F>
M To(const Tab<F>& t) {
  M m(t.r, t.c);
  for (size_t i = 0; i < t.r; ++i)
    for (size_t j = 0; j < t.c; ++j) m(i, j) = t.at(i, j);
  return m;
}
template <typename M, typename F>
void Eq(const M& m, const Tab<F>& t, const char* what) {
  SIM_CHECK((size_t)m.rows() == t.r && (size_t)m.cols() == t.c, "%s: a %zux%zu matrix instead of %zux%zu", what, (size_t)m.rows(), (size_t)m.cols(), t.r, t.c);
  for (size_t i = 0; i < t.r; ++i)
    for (size_t j = 0; j < t.c; ++j) SIM_CHECK(m(i, j) == t.at(i, j), "%s: wrong at (%zu,%zu) of %zux%zu", what, i, j, t.r, t.c);
}
template <typename F>
Tab<F> Mul(const Tab<F>& a, const Tab<F>& b) {
  Tab<F> t(a.r, b.c);
  for (size_t i = 0; i < a.r; ++i)
    for (size_t k = 0; k < b.c; ++k) {
      F s = F::Zero();
      for (size_t j = 0; j < a.c; ++j) s = s + a.at(i, j) * b.at(j, k);
      t.at(i, k) = s;
    }
  return t;
}
size_t Dim(size_t max) { return sim::Chance(1, 3) ? sim::Range(1, 4) : sim::Range(1, max); }

template <typename F, typename M>
void MatVec(size_t max) {
  size_t r = Dim(max), c = sim::Chance(1, 3) ? r : Dim(max);
  int form = (int)sim::Below(8);
  sim::Describe("matrix-vector %zux%zu form=%d scalar=%zuB", r, c, form, sizeof(F));
  Tab<F> a = Rnd<F>(r, c), b = Rnd<F>(c, 1);
  M m = To<M>(a);
  Tab<F> want = Mul(a, b);
  math::Vector<F> got;
  math::Vector<F> v(c);
  math::RowVector<F> rv(c);
  math::Matrix<F> cols(c, 3), rows(3, c);
  for (size_t j = 0; j < c; ++j) { v[j] = b.at(j, 0); rv[j] = b.at(j, 0); for (int k = 0; k < 3; ++k) { cols(j, k) = k == 1 ? b.at(j, 0) : F::One(); rows(k, j) = k == 1 ? b.at(j, 0) : F::One(); } }
  switch (form) {
    case 0: got = MulMatVec(m, v); break;
    case 1: got = MulMatVecSerial(m, v); break;
    case 2: got = MulMatVec(m, rv); break;
    case 3: got = MulMatVecSerial(m, rv); break;
    case 4: got = MulMatVec(m, cols.col(1)); break;
    case 5: got = MulMatVecSerial(m, cols.col(1)); break;
    case 6: got = MulMatVec(m, rows.row(1)); break;
    default: got = MulMatVecSerial(m, rows.row(1)); break;
  }
  Eq(got, want, "matrix-vector product");
  if (sim::Chance(1, 4)) {
    size_t bad = c + (sim::Chance(1, 2) || c == 1 ? 1 : -1);
    math::Vector<F> w(bad);
    for (size_t j = 0; j < bad; ++j) w[j] = F::One();
    sim::MustAbort("a product of a matrix with a vector of another length", [&] { got = sim::Chance(1, 2) ? MulMatVec(m, w) : MulMatVecSerial(m, w); });
  }
}
template <typename F, typename M1, typename M2>
void MatMat(size_t max) {
  size_t r = Dim(max), c = Dim(max), k = Dim(max);
  bool serial = sim::Chance(1, 4);
  sim::Describe("matrix-matrix %zux%zux%zu serial=%d scalar=%zuB", r, c, k, serial, sizeof(F));
  Tab<F> a = Rnd<F>(r, c), b = Rnd<F>(c, k);
  M1 m = To<M1>(a);
  M2 n = To<M2>(b);
  Eq(serial ? MulMatMatSerial(m, n) : MulMatMat(m, n), Mul(a, b), "matrix-matrix product");
  // a product of transposes is the transposed product
  if (sim::Chance(1, 4)) {
    Tab<F> w = Mul(a, b), wt(k, r);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) wt.at(j, i) = w.at(i, j);
    Eq(MulMatMat(n.transpose(), m.transpose()), wt, "product of transposed matrices");
  }
  if (sim::Chance(1, 4)) {
    size_t bad = c + (sim::Chance(1, 2) || c == 1 ? 1 : -1);
    M2 w = To<M2>(Rnd<F>(bad, k));
    sim::MustAbort("a product of matrices with incompatible shapes", [&] { auto x = sim::Chance(1, 2) ? MulMatMat(m, w) : MulMatMatSerial(m, w); sim::OutcomeVal(x.rows()); });
  }
}
}  // namespace

SIM_SCENARIO("C14", mat_vec, sim::kOmp, 4, 8) {
  switch (sim::Below(4)) {
    case 0: MatVec<GF7, Matrix<GF7>>(40); break;
    case 1: MatVec<Fr, Matrix<Fr>>(16); break;
    case 2: MatVec<BabyBear, RowMajorMatrix<BabyBear>>(40); break;
    default: MatVec<BabyBear, Matrix<BabyBear>>(40); break;
  }
}
SIM_SCENARIO("C14", mat_mat, sim::kOmp, 4, 8) {
  switch (sim::Below(4)) {
    case 0: MatMat<GF7, Matrix<GF7>, Matrix<GF7>>(14); break;
    case 1: MatMat<Fr, RowMajorMatrix<Fr>, Matrix<Fr>>(8); break;
    case 2: MatMat<BabyBear, RowMajorMatrix<BabyBear>, RowMajorMatrix<BabyBear>>(14); break;
    default: MatMat<BabyBear, Matrix<BabyBear>, RowMajorMatrix<BabyBear>>(14); break;
  }
}
SIM_SCENARIO("C14", circulant, 0, 1, 1) {
  size_t n = sim::Range(1, 24);
  sim::Describe("circulant n=%zu", n);
  std::vector<BabyBear> v = vu::Vec<BabyBear>(n);
  math::Vector<BabyBear> x(n);
  for (size_t i = 0; i < n; ++i) x[i] = v[i];
  Tab<BabyBear> want(n, n);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) want.at(i, j) = v[(i + n - j) % n];
  math::Matrix<BabyBear> m = MakeCirculant(x);
  Eq(m, want, "circulant matrix");
  // multiplying by it is a cyclic convolution
  Tab<BabyBear> b = Rnd<BabyBear>(n, 1);
  math::Vector<BabyBear> y(n);
  for (size_t i = 0; i < n; ++i) y[i] = b.at(i, 0);
  Eq(MulMatVecSerial(MakeCirculant(x), y), Mul(want, b), "circulant product");
}
namespace {
template <typename Fp, typename P, bool kExt>
void Packing() {
  size_t r = Dim(20), c = Dim(40);
  sim::Describe("packing %zux%zu modulus=%u", r, c, (unsigned)Fp::Config::kModulus);
  Tab<Fp> a = Rnd<Fp>(r, c);
  RowMajorMatrix<Fp> m = To<RowMajorMatrix<Fp>>(a);
  size_t row = sim::Below(r);
  std::vector<P> h = PackRowHorizontallyPadded(m.row(row));
  SIM_CHECK(h.size() == (c + P::N - 1) / P::N, "%zu packs for %zu columns", h.size(), c);
  for (size_t i = 0; i < h.size(); ++i)
    for (size_t k = 0; k < P::N; ++k)
      SIM_CHECK(h[i][k] == (i * P::N + k < c ? a.at(row, i * P::N + k) : Fp::Zero()), "row packing wrong at %zu of %zu columns", i * P::N + k, c);
  std::vector<P> v = PackRowVertically<P>(m, row);
  SIM_CHECK(v.size() == c, "%zu packs for %zu columns", v.size(), c);
  for (size_t j = 0; j < c; ++j)
    for (size_t k = 0; k < P::N; ++k) SIM_CHECK(v[j][k] == a.at((row + k) % r, j), "vertical packing wrong at column %zu lane %zu", j, k);
  if constexpr (kExt) {
  using Fp4 = BabyBear4;
  size_t c4 = Dim(6);
  Tab<Fp4> e = Rnd<Fp4>(r, c4);
  RowMajorMatrix<Fp4> me = To<RowMajorMatrix<Fp4>>(e);
  std::vector<P> w = PackRowVertically<P>(me, row);
  SIM_CHECK(w.size() == c4 * 4, "%zu packs for %zu extension columns", w.size(), c4);
  for (size_t j = 0; j < c4 * 4; ++j)
    for (size_t k = 0; k < P::N; ++k) SIM_CHECK(w[j][k] == e.at((row + k) % r, j / 4)[j % 4], "vertical packing of extension elements wrong at %zu", j);
  // linear combination of columns with powers of an extension element
  Fp4 base = vu::Elem<Fp4>();
  std::vector<Fp4> dot = DotExtPowers(m, base);
  SIM_CHECK(dot.size() == r, "%zu combinations for %zu rows", dot.size(), r);
  for (size_t i = 0; i < r; ++i) {
    Fp4 s = Fp4::Zero(), p = Fp4::One();
    for (size_t j = 0; j < c; ++j) { s = s + p * a.at(i, j); p = p * base; }
    SIM_CHECK(dot[i] == s, "combination of row %zu of %zux%zu is wrong", i, r, c);
  }
  }
}
}  // namespace
SIM_SCENARIO("C14", packing, sim::kOmp, 3, 6) {
  if (sim::Chance(2, 3)) Packing<BabyBear, PackedBabyBear, true>();
  else Packing<math::KoalaBear, math::PackedKoalaBear, false>();
}
namespace {
template <typename F>
void Rev(size_t lgmax) {
  size_t lg = sim::Below(lgmax + 1), r = (size_t)1 << lg, c = Dim(9);
  sim::Describe("bit-reverse rows %zux%zu scalar=%zuB", r, c, sizeof(F));
  Tab<F> a = Rnd<F>(r, c), w(r, c);
  for (size_t i = 0; i < r; ++i) {
    size_t q = 0;
    for (size_t b = 0; b < lg; ++b) if (i >> b & 1) q |= (size_t)1 << (lg - 1 - b);
    for (size_t j = 0; j < c; ++j) w.at(q, j) = a.at(i, j);
  }
  RowMajorMatrix<F> m = To<RowMajorMatrix<F>>(a);
  ReverseMatrixIndexBits(m);
  Eq(m, w, "row reversal");
  ReverseMatrixIndexBits(m);
  Eq(m, a, "row reversal twice");
  // sliding windows
  size_t n = sim::Range(1, r);
  auto wins = SplitMat((Eigen::Index)n, m);
  SIM_CHECK(wins.size() == n, "%zu windows instead of %zu", wins.size(), n);
  for (size_t k = 0; k < n; ++k) {
    SIM_CHECK((size_t)wins[k].rows() == r - n + 1 && (size_t)wins[k].cols() == c, "window shape");
    for (size_t i = 0; i < r - n + 1; ++i) for (size_t j = 0; j < c; ++j) SIM_CHECK(wins[k](i, j) == a.at(i + k, j), "window %zu wrong at (%zu,%zu)", k, i, j);
  }
  auto view = math::Map(m);
  Eq(view, a, "view of a matrix");
}
template <typename F>
struct Sp {  // reference sparse matrix
  size_t r, c;
  std::vector<std::vector<std::pair<size_t, F>>> rows;
};
template <typename F>
void Sparse() {
  size_t r = Dim(12), c = Dim(12);
  unsigned den = (unsigned)sim::Below(5);
  bool sorted = sim::Chance(2, 3);
  sim::Describe("sparse %zux%zu density=%u/4 sorted=%d", r, c, den, sorted);
  Tab<F> t(r, c);
  std::vector<std::vector<std::pair<size_t, F>>> rows(r);
  size_t nnz = 0, width = 0;
  bool in_order = true;
  for (size_t i = 0; i < r; ++i) {
    for (size_t j = 0; j < c; ++j)
      if (sim::Chance(den, 4)) { F x = vu::NonZero<F>(); t.at(i, j) = x; rows[i].push_back({j, x}); nnz++; width = std::max(width, j + 1); }
    if (!sorted) for (size_t k = rows[i].size(); k > 1; --k) std::swap(rows[i][k - 1], rows[i][sim::Below(k)]);
    for (size_t k = 1; k < rows[i].size(); ++k) in_order &= rows[i][k - 1].first < rows[i][k].first;
  }
  using E = ELLSparseMatrix<F>;
  using C = CSRSparseMatrix<F>;
  std::vector<typename E::Elements> el(r);
  typename C::Elements ce;
  std::vector<size_t> ptr{0};
  for (size_t i = 0; i < r; ++i) {
    for (auto& [j, x] : rows[i]) { el[i].push_back({j, x}); ce.push_back({j, x}); }
    ptr.push_back(ce.size());
  }
  E e(el);
  C s(ce, ptr);
  SIM_CHECK(e.ToCSR() == s && C::FromELL(e) == s, "row lists to compressed rows");
  SIM_CHECK(s.ToELL() == e && E::FromCSR(s) == e, "compressed rows to row lists");
  SIM_CHECK(e.NonZeros() == nnz && s.NonZeros() == nnz, "number of non-zeros is %zu and %zu, not %zu", e.NonZeros(), s.NonZeros(), nnz);
  SIM_CHECK(e.MaxRows() == r && s.MaxRows() == r, "number of rows is %zu and %zu, not %zu", e.MaxRows(), s.MaxRows(), r);
  SIM_CHECK(e.IsSorted() == in_order && s.IsSorted() == in_order, "order of elements misjudged");
  SIM_CHECK(e.MaxCols() == width, "number of columns of the row lists is %zu, not %zu", e.MaxCols(), width);
  SIM_CHECK(s.MaxCols() == width, "number of columns of the compressed rows is %zu, not %zu", s.MaxCols(), width);
  auto data = e.GetData();
  auto idx = e.GetColumnIndices();
  auto cd = s.GetData();
  auto ci = s.GetColumnIndices();
  size_t p = 0;
  for (size_t i = 0; i < r; ++i) {
    SIM_CHECK(data[i].size() == rows[i].size() && idx[i].size() == rows[i].size(), "row %zu has another number of elements", i);
    for (size_t k = 0; k < rows[i].size(); ++k, ++p)
      SIM_CHECK(data[i][k] == rows[i][k].second && idx[i][k] == rows[i][k].first && cd[p] == rows[i][k].second && ci[p] == rows[i][k].first, "element %zu of row %zu", k, i);
  }
  Tab<F> tw(r, width);
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < width; ++j) tw.at(i, j) = t.at(i, j);
  if (width) {
    Eigen::SparseMatrix<F> a = e.ToEigenSparseMatrix(), b = s.ToEigenSparseMatrix();
    auto coef = [](const Eigen::SparseMatrix<F>& m, size_t i, size_t j) { for (typename Eigen::SparseMatrix<F>::InnerIterator it(m, j); it; ++it) if ((size_t)it.row() == i) return it.value(); return F::Zero(); };
    SIM_CHECK((size_t)a.rows() == r && (size_t)a.cols() == width && (size_t)b.rows() == r && (size_t)b.cols() == width, "shape of the converted matrix");
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < width; ++j) SIM_CHECK(coef(a, i, j) == t.at(i, j) && coef(b, i, j) == t.at(i, j), "converted matrix wrong at (%zu,%zu)", i, j);
    E ea = E::FromEigenSparseMatrix(a);
    C cb = C::FromEigenSparseMatrix(b);
    Eigen::SparseMatrix<F, Eigen::RowMajor> rm(a);
    E er = E::FromEigenSparseMatrix(rm);
    E srt = e; srt.Sort();
    C scs = s; scs.Sort();
    SIM_CHECK(ea == srt && er == srt && cb == scs, "conversion there and back");
    SIM_CHECK(srt.IsSorted() && scs.IsSorted() && srt.ToCSR() == scs, "sorting");
  }
  SIM_CHECK(nnz == 0 || e != E(std::vector<typename E::Elements>(r)), "different matrices are equal");
}
}  // namespace
SIM_SCENARIO("C14", reverse_rows, sim::kOmp, 3, 6) {
  switch (sim::Below(3)) {
    case 0: Rev<BabyBear>(8); break;
    case 1: Rev<Fr>(6); break;
    default: Rev<BabyBear4>(6); break;
  }
}
SIM_SCENARIO("C14", sparse, 0, 3, 1) {
  if (sim::Chance(1, 2)) Sparse<BabyBear>(); else Sparse<GF7>();
}
