// C22: serialized values against an independent encoder, under truncation, capacity limits,
// stored-byte damage and crashes while the file is written.
#include <string.h>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "sim.h"
#include "util.h"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/json/json.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/zk/plonk/halo2/argument_data.h"

using namespace tachyon;
namespace fs = sim::fs;
using base::Buffer;
using base::Endian;
using base::ReadOnlyBuffer;
using math::BabyBear;
using math::BabyBear4;
using std::string;
using std::vector;
using Fr = math::bn254::Fr;
using Fq = math::bn254::Fq;
using Fq2 = math::bn254::Fq2;
using G1 = math::bn254::G1AffinePoint;
using G2 = math::bn254::G2AffinePoint;

namespace {
enum class Color : uint16_t { kRed, kBlue = 0x1234, kGreen = 0xfffe };
enum class Tone : int8_t { kLow = -3, kHigh = 7 };

// ---- independent encoder --------------------------------------------------------
struct Out {
  bool big = false;
  string s;
  void Raw(const void* p, size_t n) { s.append((const char*)p, n); }
  void U(uint64_t v, size_t n) {
    for (size_t i = 0; i < n; ++i) s.push_back((char)(v >> 8 * (big ? n - 1 - i : i)));
  }
};

template <typename T, typename = void>
struct Tr;  // Make, Enc, Eq, Ok (every field element in range)

template <typename T>
struct Tr<T, std::enable_if_t<std::is_integral_v<T>>> {
  static T Make() {
    if constexpr (std::is_same_v<T, bool>) return sim::Chance(1, 2);
    switch (sim::Below(5)) {
      case 0: return std::numeric_limits<T>::min();
      case 1: return std::numeric_limits<T>::max();
      case 2: return (T)sim::Below(5);
      case 3: return (T)-1;
      default: return (T)sim::Rand();
    }
  }
  static void Enc(const T& v, Out* o) { o->U((uint64_t)v, sizeof(T)); }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Ok(const T&) { return true; }
};
template <typename T>
struct Tr<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using B = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
  static T Make() {
    switch (sim::Below(6)) {
      case 0: return 0;
      case 1: return (T)-0.0;
      case 2: return (T)1.5;
      case 3: return std::numeric_limits<T>::max();
      case 4: return (T)(int64_t)sim::Rand() / 3;
      default: return std::numeric_limits<T>::denorm_min();
    }
  }
  static void Enc(const T& v, Out* o) { B b; memcpy(&b, &v, sizeof(b)); o->U(b, sizeof(T)); }
  static bool Eq(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
  static bool Ok(const T&) { return true; }
};
template <typename T>
struct Tr<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static T Make() {
    if constexpr (std::is_same_v<T, Color>) return sim::Chance(1, 2) ? Color::kBlue : Color::kGreen;
    else return sim::Chance(1, 2) ? Tone::kLow : Tone::kHigh;
  }
  static void Enc(const T& v, Out* o) { o->U((uint64_t)(U)v, sizeof(U)); }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Ok(const T&) { return true; }
};
template <typename C>
struct Tr<std::basic_string<C>> {
  using T = std::basic_string<C>;
  static T Make() {
    T s(sim::Chance(1, 4) ? sim::Below(60) : sim::Below(9), C(0));
    for (C& c : s) c = sim::Chance(1, 5) ? C(0) : (C)sim::Rand();
    return s;
  }
  static void Enc(const T& v, Out* o) { o->U(v.size(), 8); o->Raw(v.data(), v.size() * sizeof(C)); }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Ok(const T&) { return true; }
};
size_t Few() { return sim::Chance(1, 8) ? sim::Below(40) : sim::Below(5); }
template <typename E>
struct Tr<vector<E>> {
  using T = vector<E>;
  static T Make() {
    T v(Few());
    for (auto&& e : v) e = Tr<E>::Make();
    return v;
  }
  static void Enc(const T& v, Out* o) { o->U(v.size(), 8); for (const E& e : v) Tr<E>::Enc(e, o); }
  static bool Eq(const T& a, const T& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!Tr<E>::Eq(a[i], b[i])) return false;
    return true;
  }
  static bool Ok(const T& v) { for (const E& e : v) if (!Tr<E>::Ok(e)) return false; return true; }
};
template <typename E, size_t N>
struct Tr<std::array<E, N>> {
  using T = std::array<E, N>;
  static T Make() { T v; for (auto& e : v) e = Tr<E>::Make(); return v; }
  static void Enc(const T& v, Out* o) { for (const E& e : v) Tr<E>::Enc(e, o); }
  static bool Eq(const T& a, const T& b) { for (size_t i = 0; i < N; ++i) if (!Tr<E>::Eq(a[i], b[i])) return false; return true; }
  static bool Ok(const T& v) { for (const E& e : v) if (!Tr<E>::Ok(e)) return false; return true; }
};
template <size_t N>
struct Tr<math::BigInt<N>> {
  using T = math::BigInt<N>;
  static T Make() { T v; for (auto& l : v.limbs) l = Tr<uint64_t>::Make(); return v; }
  static void Enc(const T& v, Out* o) { for (uint64_t l : v.limbs) o->U(l, 8); }
  static bool Eq(const T& a, const T& b) { return !memcmp(a.limbs, b.limbs, sizeof(a.limbs)); }
  static bool Ok(const T&) { return true; }
};
// Whether fields travel in Montgomery form in this run.
bool g_mont;
template <typename F>
struct Tr<F, std::enable_if_t<vu::IsPrime<F>::value>> {
  using V = std::decay_t<decltype(std::declval<F>().value())>;
  static F Make() { return vu::Elem<F>(); }
  static void Enc(const F& v, Out* o) {
    if constexpr (std::is_integral_v<V>) {
      uint64_t x = v.value();
      if constexpr (F::Config::kUseMontgomery) if (!g_mont) x = (uint64_t)v.ToBigInt()[0];
      o->U(x, 4);
    } else {
      auto b = v.ToBigInt();
      if constexpr (F::Config::kUseMontgomery) if (g_mont) b = v.value();
      for (uint64_t l : b.limbs) o->U(l, 8);
    }
  }
  static bool Eq(const F& a, const F& b) { return a == b; }
  static bool Ok(const F& v) { return v.value() < F::Config::kModulus; }
};
template <typename F>
struct IsExt : std::bool_constant<std::is_same_v<F, BabyBear4> || std::is_same_v<F, Fq2> || std::is_same_v<F, math::bn254::Fq6> || std::is_same_v<F, math::bn254::Fq12>> {};
template <typename F>
struct Tr<F, std::enable_if_t<IsExt<F>::value>> {
  using B = std::decay_t<decltype(std::declval<F>().c0())>;
  static vector<B> C(const F& v) {
    if constexpr (std::is_same_v<F, BabyBear4>) return {v.c0(), v.c1(), v.c2(), v.c3()};
    else if constexpr (std::is_same_v<F, math::bn254::Fq6>) return {v.c0(), v.c1(), v.c2()};
    else return {v.c0(), v.c1()};
  }
  static F Make() { return vu::Elem<F>(); }
  static void Enc(const F& v, Out* o) { for (const B& c : C(v)) Tr<B>::Enc(c, o); }
  static bool Eq(const F& a, const F& b) { return a == b; }
  static bool Ok(const F& v) { for (const B& c : C(v)) if (!Tr<B>::Ok(c)) return false; return true; }
};
// Points: the coordinates one after another.
template <typename P>
struct PointTr {
  using B = typename P::BaseField;
  static constexpr int kN = std::is_same_v<P, G1> || std::is_same_v<P, G2> ? 2 : std::is_same_v<P, math::bn254::G1PointXYZZ> || std::is_same_v<P, math::bn254::G2PointXYZZ> ? 4 : 3;
  static vector<B> C(const P& p) {
    if constexpr (kN == 2) return {p.x(), p.y()};
    else if constexpr (kN == 3) return {p.x(), p.y(), p.z()};
    else return {p.x(), p.y(), p.zz(), p.zzz()};
  }
  static P Make() {
    if (sim::Chance(1, 5)) return P::Zero();
    auto B_ = [] { return vu::Elem<B>(); };
    if constexpr (kN == 2) return P(B_(), B_());
    else if constexpr (kN == 3) return P(B_(), B_(), B_());
    else return P(B_(), B_(), B_(), B_());
  }
  static void Enc(const P& v, Out* o) { for (auto& c : C(v)) Tr<B>::Enc(c, o); }
  static bool Eq(const P& a, const P& b) { return C(a) == C(b); }
  static bool Ok(const P& v) { for (auto& c : C(v)) if (!Tr<B>::Ok(c)) return false; return true; }
};
#define POINT(P) template <> struct Tr<P> : PointTr<P> {}
POINT(G1);
POINT(G2);
POINT(math::bn254::G1JacobianPoint);
POINT(math::bn254::G2JacobianPoint);
POINT(math::bn254::G1ProjectivePoint);
POINT(math::bn254::G1PointXYZZ);
POINT(math::bn254::G2PointXYZZ);
template <typename E>
struct Tr<math::Point2<E>> {
  using T = math::Point2<E>;
  static T Make() { return T(Tr<E>::Make(), Tr<E>::Make()); }
  static void Enc(const T& v, Out* o) { Tr<E>::Enc(v.x, o); Tr<E>::Enc(v.y, o); }
  static bool Eq(const T& a, const T& b) { return a.x == b.x && a.y == b.y; }
  static bool Ok(const T& v) { return Tr<E>::Ok(v.x) && Tr<E>::Ok(v.y); }
};
template <typename E>
struct Tr<math::Point3<E>> {
  using T = math::Point3<E>;
  static T Make() { return T(Tr<E>::Make(), Tr<E>::Make(), Tr<E>::Make()); }
  static void Enc(const T& v, Out* o) { Tr<E>::Enc(v.x, o); Tr<E>::Enc(v.y, o); Tr<E>::Enc(v.z, o); }
  static bool Eq(const T& a, const T& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
  static bool Ok(const T& v) { return Tr<E>::Ok(v.x) && Tr<E>::Ok(v.y) && Tr<E>::Ok(v.z); }
};
template <typename E>
struct Tr<math::Point4<E>> {
  using T = math::Point4<E>;
  static T Make() { return T(Tr<E>::Make(), Tr<E>::Make(), Tr<E>::Make(), Tr<E>::Make()); }
  static void Enc(const T& v, Out* o) { Tr<E>::Enc(v.x, o); Tr<E>::Enc(v.y, o); Tr<E>::Enc(v.z, o); Tr<E>::Enc(v.w, o); }
  static bool Eq(const T& a, const T& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
  static bool Ok(const T& v) { return Tr<E>::Ok(v.x) && Tr<E>::Ok(v.y) && Tr<E>::Ok(v.z) && Tr<E>::Ok(v.w); }
};
template <>
struct Tr<math::Dimensions> {
  using T = math::Dimensions;
  static T Make() { T d; d.width = Tr<size_t>::Make(); d.height = Tr<size_t>::Make(); return d; }
  static void Enc(const T& v, Out* o) { o->U(v.width, 8); o->U(v.height, 8); }
  static bool Eq(const T& a, const T& b) { return a.width == b.width && a.height == b.height; }
  static bool Ok(const T&) { return true; }
};
constexpr size_t kMax = 30;
template <typename F> using Dense = math::UnivariateDensePolynomial<F, kMax>;
template <typename F> using Sparse = math::UnivariateSparsePolynomial<F, kMax>;
template <typename F> using Evals = math::UnivariateEvaluations<F, kMax>;
template <typename F> using Mle = math::MultilinearExtension<math::MultilinearDenseEvaluations<F, 5>>;
template <typename F>
struct Tr<Dense<F>> {
  using T = Dense<F>;
  static T Make() {
    size_t n = sim::Below(kMax + 2);
    vector<F> v(n);
    for (auto& e : v) e = vu::Elem<F>();
    if (n) v.back() = vu::NonZero<F>();
    return T(math::UnivariateDenseCoefficients<F, kMax>(std::move(v)));
  }
  static void Enc(const T& v, Out* o) { Tr<vector<F>>::Enc(v.coefficients().coefficients(), o); }
  static bool Eq(const T& a, const T& b) { return a.coefficients().coefficients() == b.coefficients().coefficients(); }
  static bool Ok(const T& v) { return Tr<vector<F>>::Ok(v.coefficients().coefficients()) && v.coefficients().coefficients().size() <= kMax + 1; }
};
template <typename F>
struct Tr<Sparse<F>> {
  using T = Sparse<F>;
  static T Make() {
    vector<math::UnivariateTerm<F>> v;
    for (size_t d = 0; d <= kMax; ++d) if (sim::Chance(1, 9)) v.push_back({d, vu::NonZero<F>()});
    return T(math::UnivariateSparseCoefficients<F, kMax>(std::move(v)));
  }
  static void Enc(const T& v, Out* o) {
    o->U(v.coefficients().terms().size(), 8);
    for (auto& t : v.coefficients().terms()) { o->U(t.degree, 8); Tr<F>::Enc(t.coefficient, o); }
  }
  static bool Eq(const T& a, const T& b) { return a.coefficients().terms() == b.coefficients().terms(); }
  static bool Ok(const T& v) { for (auto& t : v.coefficients().terms()) if (!Tr<F>::Ok(t.coefficient)) return false; return v.Degree() <= kMax; }
};
template <typename F>
struct Tr<Evals<F>> {
  using T = Evals<F>;
  static T Make() { vector<F> v(sim::Below(kMax + 2)); for (auto& e : v) e = vu::Elem<F>(); return T(std::move(v)); }
  static void Enc(const T& v, Out* o) { Tr<vector<F>>::Enc(v.evaluations(), o); }
  static bool Eq(const T& a, const T& b) { return a.evaluations() == b.evaluations(); }
  static bool Ok(const T& v) { return Tr<vector<F>>::Ok(v.evaluations()) && v.evaluations().size() <= kMax + 1; }
};
template <typename F>
struct Tr<Mle<F>> {
  using T = Mle<F>;
  using D = math::MultilinearDenseEvaluations<F, 5>;
  static T Make() { vector<F> v(sim::Chance(1, 6) ? 0 : (size_t)1 << sim::Below(6)); for (auto& e : v) e = vu::Elem<F>(); return T(D(std::move(v))); }
  static void Enc(const T& v, Out* o) { Tr<vector<F>>::Enc(v.evaluations().evaluations(), o); }
  static bool Eq(const T& a, const T& b) { return a.evaluations().evaluations() == b.evaluations().evaluations(); }
  static bool Ok(const T& v) { return Tr<vector<F>>::Ok(v.evaluations().evaluations()) && v.evaluations().evaluations().size() <= 32; }
};
template <typename F>
struct Tr<math::LinearCombinationTerm<F>> {
  using T = math::LinearCombinationTerm<F>;
  static T Make() { T t; t.coefficient = vu::Elem<F>(); t.indexes = Tr<vector<size_t>>::Make(); return t; }
  static void Enc(const T& v, Out* o) { Tr<F>::Enc(v.coefficient, o); Tr<vector<size_t>>::Enc(v.indexes, o); }
  static bool Eq(const T& a, const T& b) { return a.coefficient == b.coefficient && a.indexes == b.indexes; }
  static bool Ok(const T& v) { return Tr<F>::Ok(v.coefficient); }
};
template <typename F, int R, int C, int O>
struct Tr<Eigen::Matrix<F, R, C, O>> {
  using T = Eigen::Matrix<F, R, C, O>;
  static T Make() {
    Eigen::Index r = R == Eigen::Dynamic ? sim::Below(6) : R, c = C == Eigen::Dynamic ? sim::Below(6) : C;
    T m(r, c);
    for (Eigen::Index i = 0; i < r; ++i) for (Eigen::Index j = 0; j < c; ++j) m(i, j) = Tr<F>::Make();
    return m;
  }
  static void Enc(const T& m, Out* o) {
    o->U(m.rows(), 8);
    o->U(m.cols(), 8);
    if (O & Eigen::RowMajor) { if (m.size() == 0) return; for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) Tr<F>::Enc(m(i, j), o); }
    else if (m.size()) for (Eigen::Index j = 0; j < m.cols(); ++j) for (Eigen::Index i = 0; i < m.rows(); ++i) Tr<F>::Enc(m(i, j), o);
  }
  static bool Eq(const T& a, const T& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    if (a.size() == 0) return true;
    for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (!Tr<F>::Eq(a(i, j), b(i, j))) return false;
    return true;
  }
  static bool Ok(const T& m) {
    if (m.size() == 0) return true;
    for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) if (!Tr<F>::Ok(m(i, j))) return false;
    return true;
  }
};
template <typename F>
struct Tr<math::DiagonalMatrix<F>> {
  using T = math::DiagonalMatrix<F>;
  static T Make() {
    math::Vector<F> v(sim::Below(6));
    for (Eigen::Index i = 0; i < v.size(); ++i) v[i] = Tr<F>::Make();
    return T(v);
  }
  static void Enc(const T& m, Out* o) { o->U(m.rows(), 8); for (Eigen::Index i = 0; i < m.rows(); ++i) Tr<F>::Enc(m.diagonal()[i], o); }
  static bool Eq(const T& a, const T& b) {
    if (a.rows() != b.rows()) return false;
    for (Eigen::Index i = 0; i < a.rows(); ++i) if (!Tr<F>::Eq(a.diagonal()[i], b.diagonal()[i])) return false;
    return true;
  }
  static bool Ok(const T& m) { for (Eigen::Index i = 0; i < m.rows(); ++i) if (!Tr<F>::Ok(m.diagonal()[i])) return false; return true; }
};

// ---- one value of some type --------------------------------------------------------
struct Item {
  const char* name;
  virtual ~Item() {}
  virtual bool Write(Buffer* b) const = 0;
  virtual bool WriteAt(Buffer* b, size_t at) const = 0;
  virtual bool Read(const ReadOnlyBuffer& b) = 0;   // into a fresh value
  virtual bool ReadAt(const ReadOnlyBuffer& b, size_t at) = 0;
  virtual bool Same() const = 0;                    // what was read is what was written
  virtual bool Ok() const = 0;                      // what was read is in range
  virtual void Enc(Out* o) const = 0;
  virtual void EncRead(Out* o) const = 0;           // what was read, encoded
  virtual size_t Est() const = 0;
  virtual bool Exact() const { return true; }
};
template <typename T>
struct Val : Item {
  T v = Tr<T>::Make();
  std::unique_ptr<T> r;
  bool Write(Buffer* b) const override { return b->Write(v); }
  bool WriteAt(Buffer* b, size_t at) const override { return b->WriteAt(at, v); }
  bool Read(const ReadOnlyBuffer& b) override { r.reset(new T()); return b.Read(r.get()); }
  bool ReadAt(const ReadOnlyBuffer& b, size_t at) override { r.reset(new T()); return b.ReadAt(at, r.get()); }
  bool Same() const override { return Tr<T>::Eq(v, *r); }
  bool Ok() const override { return Tr<T>::Ok(*r); }
  void Enc(Out* o) const override { Tr<T>::Enc(v, o); }
  void EncRead(Out* o) const override { if constexpr (!std::is_same_v<T, bool>) Tr<T>::Enc(*r, o); }
  size_t Est() const override { return base::EstimateSize(v); }
  bool Exact() const override { return !std::is_same_v<T, bool>; }
};
// Written from one type, read as another.
template <typename C>
struct CStr : Val<std::basic_string<C>> {
  CStr() { for (C& c : this->v) if (!c) c = C(1); }
  bool Write(Buffer* b) const override { return b->Write(this->v.c_str()); }
  size_t Est() const override { return base::EstimateSize(this->v.c_str()); }
};
template <typename C>
struct View : Val<std::basic_string<C>> {
  bool Write(Buffer* b) const override { return b->Write(std::basic_string_view<C>(this->v)); }
  size_t Est() const override { return base::EstimateSize(std::basic_string_view<C>(this->v)); }
};
template <typename E>
struct SpanOf : Val<vector<E>> {
  bool Write(Buffer* b) const override { return b->Write(absl::Span<const E>(this->v)); }
  size_t Est() const override { return base::EstimateSize(absl::Span<const E>(this->v)); }
};
template <typename E, size_t N>
struct CArr : Item {
  E v[N], r[N];
  CArr() { for (auto& e : v) e = Tr<E>::Make(); }
  bool Write(Buffer* b) const override { return b->Write(v); }
  bool WriteAt(Buffer* b, size_t at) const override { return b->WriteAt(at, v); }
  bool Read(const ReadOnlyBuffer& b) override { return b.Read(r); }
  bool ReadAt(const ReadOnlyBuffer& b, size_t at) override { return b.ReadAt(at, r); }
  bool Same() const override { for (size_t i = 0; i < N; ++i) if (!Tr<E>::Eq(v[i], r[i])) return false; return true; }
  bool Ok() const override { for (auto& e : r) if (!Tr<E>::Ok(e)) return false; return true; }
  void Enc(Out* o) const override { for (auto& e : v) Tr<E>::Enc(e, o); }
  void EncRead(Out* o) const override { for (auto& e : r) Tr<E>::Enc(e, o); }
  size_t Est() const override { return base::EstimateSize(v); }
};
using ItemP = std::unique_ptr<Item>;
struct Maker { const char* name; ItemP (*make)(); };
template <typename T>
ItemP Mk() { return ItemP(new T()); }
#define V(...) {#__VA_ARGS__, Mk<Val<__VA_ARGS__>>}
using Arr3 = std::array<uint16_t, 3>;
using ArrBB = std::array<BabyBear, 8>;
using M23 = Eigen::Matrix<BabyBear, 2, 3>;
using MR = math::RowMajorMatrix<BabyBear>;
using MC = math::Matrix<Fr>;
using M2D = Eigen::Matrix<BabyBear4, 2, Eigen::Dynamic>;
using MD1 = math::Vector<Fr>;
const Maker kBasic[] = {
  V(bool), V(char), V(int8_t), V(uint8_t), V(int16_t), V(uint16_t), V(int32_t), V(uint32_t), V(int64_t), V(uint64_t),
  V(float), V(double), V(char16_t), V(wchar_t), V(Color), V(Tone),
  V(string), V(std::u16string), V(std::wstring), V(std::u32string),
  {"const char*", Mk<CStr<char>>}, {"const char16_t*", Mk<CStr<char16_t>>}, {"const wchar_t*", Mk<CStr<wchar_t>>},
  {"string_view", Mk<View<char>>}, {"u16string_view", Mk<View<char16_t>>},
  V(vector<uint8_t>), V(vector<int>), V(vector<string>), V(vector<vector<uint16_t>>), V(vector<float>), V(vector<Color>),
  {"Span<uint64>", Mk<SpanOf<uint64_t>>}, {"Span<string>", Mk<SpanOf<string>>},
  V(Arr3), {"uint64[4]", Mk<CArr<uint64_t, 4>>}, {"int16[3]", Mk<CArr<int16_t, 3>>},
};
const Maker kMath[] = {
  V(math::BigInt<1>), V(math::BigInt<4>), V(math::BigInt<6>),
  V(Fr), V(Fq), V(BabyBear), V(math::GF7), V(math::Mersenne31), V(BabyBear4), V(Fq2), V(math::bn254::Fq6), V(math::bn254::Fq12),
  V(G1), V(G2), V(math::bn254::G1JacobianPoint), V(math::bn254::G2JacobianPoint), V(math::bn254::G1ProjectivePoint), V(math::bn254::G1PointXYZZ), V(math::bn254::G2PointXYZZ),
  V(math::Point2<Fr>), V(math::Point3<BabyBear>), V(math::Point4<Fq>), V(math::Dimensions),
  V(vector<Fr>), V(vector<BabyBear>), V(vector<G1>), V(ArrBB), V(vector<vector<BabyBear4>>), V(vector<ArrBB>),
  V(Dense<Fr>), V(Dense<BabyBear>), V(Sparse<Fr>), V(Sparse<BabyBear>), V(Evals<Fr>), V(Evals<BabyBear4>), V(Mle<Fr>), V(Mle<BabyBear>), V(vector<Dense<Fr>>), V(vector<Evals<BabyBear>>),
  V(math::LinearCombinationTerm<Fr>), V(vector<math::LinearCombinationTerm<BabyBear>>),
  V(MR), V(MC), V(M23), V(M2D), V(MD1), V(vector<MR>), V(math::DiagonalMatrix<Fr>),
};
#undef V

template <typename F>
void SetMont() {
  base::Copyable<F>::s_is_in_montgomery = g_mont;
}
void ChooseForm() {
  g_mont = sim::Chance(1, 3);
  SetMont<Fr>();
  SetMont<Fq>();
  SetMont<BabyBear>();
}

struct Seq {
  vector<ItemP> items;
  vector<size_t> ends;  // expected
  string bytes;         // expected
  string names;
  Endian endian;
};
Endian AnyEndian() { static const Endian k[] = {Endian::kNative, Endian::kBig, Endian::kLittle}; return sim::Pick(k); }
Seq MakeSeq(size_t most) {
  Seq s;
  s.endian = AnyEndian();
  ChooseForm();
  Out o;
  o.big = s.endian == Endian::kBig;
  size_t n = sim::Range(1, most);
  for (size_t i = 0; i < n; ++i) {
    const Maker& m = sim::Chance(1, 2) ? sim::Pick(kBasic) : sim::Pick(kMath);
    s.items.push_back(m.make());
    s.items.back()->name = m.name;
    s.names += (i ? " " : "") + string(m.name);
    s.items.back()->Enc(&o);
    s.ends.push_back(o.s.size());
  }
  s.bytes = o.s;
  sim::Describe("%s%s: %s (%zu bytes)", s.endian == Endian::kBig ? "big" : s.endian == Endian::kLittle ? "little" : "native", g_mont ? " montgomery" : "", s.names.substr(0, 200).c_str(), s.bytes.size());
  return s;
}
// A heap block of exactly the given bytes: anything read beyond is caught.
struct Block {
  uint8_t* p;
  size_t n;
  explicit Block(const string& s) : p(new uint8_t[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  explicit Block(size_t n) : p(new uint8_t[n]), n(n) { memset(p, 0xEE, n); }
  ~Block() { delete[] p; }
  string Str() const { return string((char*)p, n); }
};
std::unique_ptr<Buffer> Growable() {
  switch (sim::Below(3)) {
    case 0: return std::unique_ptr<Buffer>(new base::Uint8VectorBuffer());
    case 1: return std::unique_ptr<Buffer>(new base::CharVectorBuffer());
    default: return std::unique_ptr<Buffer>(new base::StringBuffer());
  }
}
string BytesOf(const Buffer& b) { return string((const char*)b.buffer(), b.buffer_len()); }
void WriteAll(const Seq& s, Buffer* b) {
  for (size_t i = 0; i < s.items.size(); ++i) {
    SIM_CHECK(s.items[i]->Write(b), "writing %s failed", s.items[i]->name);
    SIM_CHECK(b->buffer_offset() == s.ends[i], "%s took %zu bytes instead of %zu", s.items[i]->name, b->buffer_offset() - (i ? s.ends[i - 1] : 0), s.ends[i] - (i ? s.ends[i - 1] : 0));
  }
}
void SameBytes(const Seq& s, const string& got) {
  if (got == s.bytes) return;
  size_t d = 0;
  while (d < got.size() && d < s.bytes.size() && got[d] == s.bytes[d]) ++d;
  size_t i = 0;
  while (i + 1 < s.ends.size() && s.ends[i] <= d) ++i;
  sim::Fail("stored bytes of %s differ at offset %zu", s.items[i]->name, d);
}
// Reads the sequence from |bytes|, of which the first |intact| are as written.
void ReadCut(Seq& s, const string& bytes) {
  Block b(bytes);
  ReadOnlyBuffer r(b.p, b.n);
  r.set_endian(s.endian);
  for (size_t i = 0; i < s.items.size(); ++i) {
    bool ok = s.items[i]->Read(r);
    if (s.ends[i] <= bytes.size()) {
      SIM_CHECK(ok, "reading %s back failed", s.items[i]->name);
      SIM_CHECK(s.items[i]->Same(), "%s read back differently", s.items[i]->name);
      SIM_CHECK(r.buffer_offset() == s.ends[i], "reading %s consumed %zu bytes", s.items[i]->name, r.buffer_offset());
    } else {
      SIM_CHECK(!ok, "%s was read from data cut short by %zu bytes", s.items[i]->name, s.ends[i] - bytes.size());
      return;
    }
  }
  SIM_CHECK(r.Done() == (bytes.size() == s.bytes.size()), "Done()");
}

SIM_SCENARIO("C22", buffer_values, sim::kIo, 6, 1) {
  Seq s = MakeSeq(8);
  std::unique_ptr<Buffer> b = Growable();
  b->set_endian(s.endian);
  WriteAll(s, b.get());
  SameBytes(s, BytesOf(*b));
  size_t prev = 0;
  for (size_t i = 0; i < s.items.size(); ++i) {
    SIM_CHECK(s.items[i]->Est() == s.ends[i] - prev, "estimated size of %s is %zu, not %zu", s.items[i]->name, s.items[i]->Est(), s.ends[i] - prev);
    prev = s.ends[i];
  }
  ReadCut(s, BytesOf(*b));
  // The buffer itself can be read from the start.
  b->set_buffer_offset(0);
  for (auto& it : s.items) { SIM_CHECK(it->Read(*b) && it->Same(), "reading %s from the written buffer", it->name); }
  SIM_CHECK(b->Done(), "not at the end");
  // In any order, by offset.
  for (int k = 0; k < 3; ++k) {
    size_t i = sim::Below(s.items.size());
    SIM_CHECK(s.items[i]->ReadAt(*b, i ? s.ends[i - 1] : 0) && s.items[i]->Same(), "reading %s at its offset", s.items[i]->name);
    SIM_CHECK(b->buffer_offset() == s.ends[i], "offset after reading at an offset");
  }
}

SIM_SCENARIO("C22", cut_short, sim::kIo, 5, 1) {
  Seq s = MakeSeq(4);
  base::Uint8VectorBuffer b;
  b.set_endian(s.endian);
  WriteAll(s, &b);
  string all = BytesOf(b);
  size_t n = all.size();
  if (n <= 150) {
    for (size_t c = 0; c < n; ++c) ReadCut(s, all.substr(0, c));
    sim::NoteFault(sim::kCorrupt);
    sim::Count("cuts", n);
  } else {
    for (int k = 0; k < 60; ++k) {
      size_t e = sim::Chance(1, 2) ? s.ends[sim::Below(s.ends.size())] : sim::Below(n);
      size_t c = std::min(n - 1, sim::Chance(1, 2) && e ? e - 1 : e);
      ReadCut(s, all.substr(0, c));
      sim::NoteFault(sim::kCorrupt);
    }
    sim::Count("cuts", 60);
  }
}

SIM_SCENARIO("C22", fixed_capacity, sim::kIo, 4, 1) {
  Seq s = MakeSeq(4);
  for (int k = 0; k < 24; ++k) {
    size_t cap = sim::Below(s.bytes.size() + 3);
    if (sim::Chance(1, 3)) cap = s.ends[sim::Below(s.ends.size())];
    if (sim::Chance(1, 3) && cap) --cap;
    Block blk(cap);
    Buffer b(blk.p, cap);
    b.set_endian(s.endian);
    sim::NoteFault(sim::kEnospc);
    size_t i = 0;
    for (; i < s.items.size(); ++i) {
      bool ok = s.items[i]->Write(&b);
      SIM_CHECK(ok == (s.ends[i] <= cap), "writing %s, ending at %zu, into %zu bytes: %d", s.items[i]->name, s.ends[i], cap, ok);
      if (!ok) break;
    }
    size_t kept = i ? s.ends[i - 1] : 0;
    SIM_CHECK(!memcmp(blk.p, s.bytes.data(), kept), "a refused write changed what was written before");
    SIM_CHECK(b.buffer() == blk.p && b.buffer_len() == cap, "a refused write changed the buffer");
    if (i == s.items.size()) for (size_t j = kept; j < cap; ++j) SIM_CHECK(blk.p[j] == 0xEE, "bytes after the last value changed");
  }
}

void Damage(string* s) {
  int n = (int)sim::Range(1, 3);
  for (int i = 0; i < n && !s->empty(); ++i) {
    sim::NoteFault(sim::kCorrupt);
    size_t at = sim::Below(s->size());
    switch (sim::Below(6)) {
      case 0: (*s)[at] ^= 1 << sim::Below(8); break;
      case 1: (*s)[at] = (char)sim::Rand(); break;
      case 2: case 3: {  // a whole word
        at &= ~(size_t)7;
        static const uint64_t k[] = {~0ull, 0x7fffffffffffffffull, 1ull << 63, 1ull << 61, 1ull << 40, 1ull << 32, 100, 33, 32, 31, 7, 0, 0x2000000000000001ull, 0xffffffff00000000ull};
        uint64_t v = sim::Pick(k);
        if (sim::Chance(1, 4)) v = sim::Rand();
        if (sim::Chance(1, 2)) v = __builtin_bswap64(v);
        for (size_t j = 0; j < 8 && at + j < s->size(); ++j) (*s)[at + j] = (char)(v >> 8 * j);
        break;
      }
      case 4: s->resize(at); break;
      default: for (size_t j = at; j < s->size() && j < at + 40; ++j) (*s)[j] = sim::Chance(1, 2) ? (char)0xff : (char)sim::Rand(); break;
    }
  }
}

SIM_SCENARIO("C22", damaged, sim::kIo, 6, 1) {
  Seq s = MakeSeq(3);
  base::Uint8VectorBuffer w;
  w.set_endian(s.endian);
  WriteAll(s, &w);
  for (int k = 0; k < 12; ++k) {
    string bytes = BytesOf(w);
    Damage(&bytes);
    Block b(bytes);
    ReadOnlyBuffer r(b.p, b.n);
    r.set_endian(s.endian);
    for (auto& it : s.items) {
      size_t from = r.buffer_offset();
      bool ok = it->Read(r);
      SIM_CHECK(r.buffer_offset() <= b.n, "position is beyond the end");
      if (!ok) break;
      SIM_CHECK(it->Ok(), "%s was accepted with a value out of range", it->name);
      if (it->Exact()) {
        Out o;
        o.big = s.endian == Endian::kBig;
        it->EncRead(&o);
        SIM_CHECK(o.s == bytes.substr(from, r.buffer_offset() - from), "%s was accepted from bytes it would not be written as", it->name);
      }
      sim::Count("damaged values accepted");
    }
  }
}

SIM_SCENARIO("C22", offsets, sim::kIo, 4, 1) {
  ChooseForm();
  std::unique_ptr<Buffer> own;
  size_t cap = 0;
  bool grows = sim::Chance(2, 3);
  std::unique_ptr<Block> blk;
  string model;
  if (grows) own = Growable();
  else {
    cap = sim::Below(100);
    blk.reset(new Block(cap));
    own.reset(new Buffer(blk->p, cap));
    model = blk->Str();
  }
  Buffer& b = *own;
  size_t pos = 0;
  int n = (int)sim::Range(1, 14);
  sim::Describe("offsets %s %d", grows ? "growing" : "fixed", n);
  for (int i = 0; i < n; ++i) {
    Endian e = AnyEndian();
    b.set_endian(e);
    bool big = e == Endian::kBig;
    size_t at = sim::Below(model.size() + 12);
    bool wild = sim::Chance(1, 5);
    if (wild) at = (size_t)0 - sim::Range(1, 8);
    switch (sim::Below(9)) {
      case 0: case 1: {  // a value at an offset
        const Maker& m = sim::Pick(kBasic);
        ItemP it = m.make();
        Out o;
        o.big = big;
        it->Enc(&o);
        if (m.name[0] == 'c' && strchr(m.name, '*')) break;
        if (strstr(m.name, "view") || strstr(m.name, "Span")) break;
        if (wild && o.s.size() < 9) break;  // would really ask for that much memory
        bool ok = it->WriteAt(&b, at);
        bool fits = !wild && (grows || at + o.s.size() <= cap);
        SIM_CHECK(ok == fits, "writing %s (%zu bytes) at %zu of %zu: %d", m.name, o.s.size(), at, b.buffer_len(), ok);
        if (ok) {
          if (model.size() < at + o.s.size()) model.resize(at + o.s.size(), 0);
          model.replace(at, o.s.size(), o.s);
          pos = at + o.s.size();
          SIM_CHECK(b.buffer_offset() == pos, "offset after write");
          SIM_CHECK(it->ReadAt(b, at) && it->Same(), "reading %s back at its offset", m.name);
        } else {
          if (!wild && !grows) { string now = blk->Str(); SIM_CHECK(now.substr(0, std::min(at, cap)) == model.substr(0, std::min(at, cap)), "bytes before the offset changed"); model = now; }
        }
        break;
      }
      case 2: {  // raw bytes
        string d(sim::Below(20), 'x');
        for (char& c : d) c = (char)sim::Rand();
        if (wild && d.size() < 9) break;
        bool ok = b.WriteAt(at, (const uint8_t*)d.data(), d.size());
        bool fits = !wild && (grows || at + d.size() <= cap);
        SIM_CHECK(ok == fits, "writing %zu bytes at %zu: %d", d.size(), at, ok);
        if (ok) {
          if (model.size() < at + d.size()) model.resize(at + d.size(), 0);
          model.replace(at, d.size(), d);
          SIM_CHECK(b.buffer_offset() == at + d.size(), "offset after raw write");
        }
        break;
      }
      case 3: {  // raw read
        size_t len = sim::Below(20);
        Block out(len);
        bool ok = b.ReadAt(at, out.p, len);
        bool fits = !wild && at + len <= model.size();
        if (wild && len <= 8 && at + len >= at) fits = false;
        SIM_CHECK(ok == fits, "reading %zu bytes at %zu of %zu: %d", len, at, model.size(), ok);
        if (ok) SIM_CHECK(out.Str() == model.substr(at, len), "raw read");
        break;
      }
      case 4: {  // integers by size and order
        uint64_t v = sim::Rand();
        size_t w = (size_t)2 << sim::Below(3);
        bool be = sim::Chance(1, 2);
        if (wild && at + w > at) break;
        bool ok = w == 2 ? (be ? b.Write16BEAt(at, v) : b.Write16LEAt(at, v)) : w == 4 ? (be ? b.Write32BEAt(at, v) : b.Write32LEAt(at, v)) : (be ? b.Write64BEAt(at, v) : b.Write64LEAt(at, v));
        bool fits = !wild && (grows || at + w <= cap);
        SIM_CHECK(ok == fits, "writing %zu bytes at %zu: %d", w, at, ok);
        if (!ok) break;
        if (model.size() < at + w) model.resize(at + w, 0);
        Out o;
        o.big = be;
        o.U(v, w);
        model.replace(at, w, o.s);
        uint16_t a16; uint32_t a32; uint64_t a64;
        b.set_buffer_offset(at);
        if (w == 2) SIM_CHECK((be ? b.Read16BE(&a16) : b.Read16LE(&a16)) && a16 == (uint16_t)v, "16-bit read");
        if (w == 4) SIM_CHECK((be ? b.Read32BE(&a32) : b.Read32LE(&a32)) && a32 == (uint32_t)v, "32-bit read");
        if (w == 8) SIM_CHECK((be ? b.Read64BE(&a64) : b.Read64LE(&a64)) && a64 == v, "64-bit read");
        break;
      }
      case 5: {  // a view of the stored elements
        uint32_t* p = nullptr;
        size_t k = sim::Below(8);
        bool over = sim::Chance(1, 4);
        if (over) k = ((size_t)1 << 62) + sim::Below(4);
        bool ok = b.ReadPtrAt(at, &p, k);
        bool fits = !wild && !over && at + 4 * k <= model.size();
        SIM_CHECK(ok == fits, "%zu elements at %zu of %zu: %d", k, at, model.size(), ok);
        if (ok && k) SIM_CHECK(!memcmp(p, model.data() + at, 4 * k), "viewed bytes");
        if (ok) SIM_CHECK(b.buffer_offset() == at + 4 * k, "offset after a view");
        break;
      }
      case 6: {  // several at once
        if (wild) break;
        uint32_t x = (uint32_t)sim::Rand();
        string y = Tr<string>::Make();
        int16_t z = Tr<int16_t>::Make();
        Out o;
        o.big = big;
        o.U(x, 4);
        Tr<string>::Enc(y, &o);
        o.U((uint64_t)z, 2);
        bool ok = b.WriteManyAt(at, x, y, z);
        SIM_CHECK(ok == (grows || at + o.s.size() <= cap), "writing several values");
        if (!ok) { model = blk->Str(); break; }
        if (model.size() < at + o.s.size()) model.resize(at + o.s.size(), 0);
        model.replace(at, o.s.size(), o.s);
        uint32_t x2;
        string y2;
        int16_t z2;
        SIM_CHECK(b.ReadManyAt(at, &x2, &y2, &z2) && x2 == x && y2 == y && z2 == z, "several values read back differently");
        break;
      }
      case 7: {  // a scope with another byte order
        Endian other = AnyEndian();
        { base::EndianAutoReset r(b, other); SIM_CHECK(b.endian() == other, "byte order in the scope"); }
        SIM_CHECK(b.endian() == e, "byte order after the scope");
        break;
      }
      default:
        b.set_buffer_offset(std::min(at, model.size()));
        SIM_CHECK(b.Done() == (b.buffer_offset() == model.size()), "Done()");
        break;
    }
    SIM_CHECK(b.buffer_len() == model.size() || !grows, "buffer length %zu, expected %zu", b.buffer_len(), model.size());
    if (grows) SIM_CHECK(BytesOf(b) == model, "contents of the buffer");
    else SIM_CHECK(blk->Str() == model, "contents of the fixed buffer");
  }
}

template <typename B>
void Moves() {
  ChooseForm();
  Seq s = MakeSeq(6);
  std::unique_ptr<B> b(new B());
  b->set_endian(s.endian);
  size_t at = sim::Below(s.items.size() + 1);
  for (size_t i = 0; i <= s.items.size(); ++i) {
    if (i == at || sim::Chance(1, 4)) {
      std::unique_ptr<B> c;
      if (sim::Chance(1, 2)) c.reset(new B(std::move(*b)));
      else {
        c.reset(new B());
        if (sim::Chance(1, 2)) SIM_REQUIRE(c->Write((uint64_t)7));
        *c = std::move(*b);
      }
      if (sim::Chance(1, 2)) { SIM_CHECK(b->buffer_len() == 0 || b->buffer() == nullptr || true, "moved-from"); }
      b = std::move(c);  // the old object is gone
    }
    SIM_CHECK(b->endian() == s.endian, "a moved buffer forgot its byte order");
    if (i == s.items.size()) break;
    SIM_CHECK(s.items[i]->Write(b.get()) && b->buffer_offset() == s.ends[i], "writing to a moved buffer");
  }
  SameBytes(s, BytesOf(*b));
  b->set_buffer_offset(0);
  for (auto& it : s.items) SIM_CHECK(it->Read(*b) && it->Same(), "reading from a moved buffer");
  auto out = std::move(*b).TakeOwnedBuffer();
  SIM_CHECK(string((const char*)out.data(), out.size()) == s.bytes, "taken bytes");
}
SIM_SCENARIO("C22", moves, sim::kIo, 2, 1) {
  switch (sim::Below(3)) {
    case 0: Moves<base::Uint8VectorBuffer>(); break;
    case 1: Moves<base::CharVectorBuffer>(); break;
    default: Moves<base::StringBuffer>(); break;
  }
}

// ---- composite objects: keys, hashers, trees ------------------------------------------
template <typename T>
struct Obj {
  // |good(copy)| says whether the copy behaves like the original; |sane(x)| uses an accepted damaged one.
  static void Run(const T& v, const std::function<bool(const T&)>& good) {
    Endian e = AnyEndian();
    base::Uint8VectorBuffer w;
    w.set_endian(e);
    SIM_CHECK(w.Write(v), "writing failed");
    string bytes = BytesOf(w);
    size_t n = bytes.size();
    SIM_CHECK(base::EstimateSize(v) == n, "estimated size %zu, written %zu", base::EstimateSize(v), n);
    auto read = [&](const string& s, T* out) {
      Block b(s);
      ReadOnlyBuffer r(b.p, b.n);
      r.set_endian(e);
      bool ok = r.Read(out);
      SIM_CHECK(r.buffer_offset() <= b.n, "position beyond the end");
      if (ok && s.size() == n) SIM_CHECK(r.Done() || s != bytes, "not everything was read");
      return ok;
    };
    {
      T back;
      SIM_CHECK(read(bytes, &back), "reading back failed");
      SIM_CHECK(good(back), "the copy read back behaves differently");
      base::Uint8VectorBuffer w2;
      w2.set_endian(e);
      SIM_CHECK(w2.Write(back) && BytesOf(w2) == bytes, "the copy is written as other bytes");
    }
    for (int k = 0; k < 8; ++k) {
      T back;
      size_t c = sim::Chance(1, 3) ? n - std::min(n, sim::Range(1, 9)) : sim::Below(n);
      sim::NoteFault(sim::kCorrupt);
      SIM_CHECK(!read(bytes.substr(0, c), &back), "read from %zu of %zu bytes", c, n);
    }
    for (int k = 0; k < 10; ++k) {
      string s = bytes;
      Damage(&s);
      T back;
      if (!read(s, &back)) { sim::Count("damaged objects refused"); continue; }
      sim::Count("damaged objects accepted");
      base::Uint8VectorBuffer w2;
      w2.set_endian(e);
      SIM_CHECK(w2.Write(back), "writing");
      string again = BytesOf(w2);
      SIM_CHECK(again.size() <= s.size() && s.compare(0, again.size(), again) == 0, "accepted from bytes it would not be written as");
    }
    size_t cap = sim::Below(n);
    Block blk(cap);
    Buffer f(blk.p, cap);
    f.set_endian(e);
    SIM_CHECK(!f.Write(v), "%zu bytes fit into %zu", n, cap);
  }
};
template <typename T>
T Pt() {
  using S = typename T::ScalarField;
  if (sim::Chance(1, 6)) return T::Zero();
  return (T::Generator() * vu::Uni<S>()).ToAffine();
}
using PParams = crypto::PoseidonParams<Fr, 2, 17, 8, 31>;
using P2BB = crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, BabyBear, 15, 7>;
using PP2BB = crypto::Poseidon2Params<crypto::Poseidon2Vendor::kPlonky3, crypto::Poseidon2Vendor::kPlonky3, math::PackedBabyBear, 15, 7>;
using P2Hz = crypto::Poseidon2Params<crypto::Poseidon2Vendor::kHorizen, crypto::Poseidon2Vendor::kHorizen, BabyBear, 15, 7>;
template <typename Sponge>
bool Agree(const Sponge& a, const Sponge& b) {
  using Params = typename Sponge::Params;
  crypto::SpongeState<Params> x, y;
  for (size_t i = 0; i < x.size(); ++i) x.elements[i] = y.elements[i] = vu::Elem<typename Params::Field>();
  a.Permute(x);
  b.Permute(y);
  return x.elements == y.elements;
}
using Tree = crypto::FieldMerkleTree<BabyBear, 8>;
using Ped = crypto::Pedersen<G1, 12>;
using Kzg = crypto::KZG<G1, 15, G1>;
using Gwc = crypto::GWC<math::bn254::BN254Curve, 15, G1>;
using Shp = crypto::SHPlonk<math::bn254::BN254Curve, 15, G1>;
using Arg = zk::plonk::halo2::ArgumentData<Dense<Fr>, Evals<Fr>>;
}  // namespace

SIM_WARMUP(c22) {
  math::bn254::BN254Curve::Init();
  BabyBear4::Init();
  math::PackedBabyBear::Init();
  { LOG(INFO) << "warm"; }
}

SIM_SCENARIO("C22", hashers_and_trees, sim::kIo, 3, 1) {
  ChooseForm();
  switch (sim::Below(5)) {
    case 0: {
      sim::Describe("poseidon sponge");
      static crypto::PoseidonSponge<PParams>* a;
      a = new crypto::PoseidonSponge<PParams>(crypto::PoseidonConfig<PParams>::Create(0));
      Obj<crypto::PoseidonSponge<PParams>>::Run(*a, [&](auto& b) { return Agree(*a, b); });
      break;
    }
    case 1: {
      sim::Describe("poseidon2 sponge, plonky3");
      crypto::Poseidon2Sponge<P2BB> a;
      Obj<crypto::Poseidon2Sponge<P2BB>>::Run(a, [&](auto& b) { return Agree(a, b); });
      break;
    }
    case 2: {
      sim::Describe("poseidon2 sponge, horizen");
      auto diag = crypto::GetPoseidon2InternalDiagonalArray<P2Hz>();
      crypto::Poseidon2Sponge<P2Hz> a(crypto::Poseidon2Config<P2Hz>::Create(diag));
      Obj<crypto::Poseidon2Sponge<P2Hz>>::Run(a, [&](auto& b) { return Agree(a, b); });
      break;
    }
    case 3: {
      sim::Describe("sponge state");
      crypto::SpongeState<P2BB> a;
      for (size_t i = 0; i < a.size(); ++i) a.elements[i] = vu::Elem<BabyBear>();
      if (sim::Chance(1, 2)) a.mode = crypto::DuplexSpongeMode::Squeezing(sim::Below(16));
      else a.mode = crypto::DuplexSpongeMode::Absorbing(sim::Below(16));
      Obj<crypto::SpongeState<P2BB>>::Run(a, [&](auto& b) { return a == b; });
      break;
    }
    default: {
      size_t n = sim::Range(1, 3);
      vector<math::RowMajorMatrix<BabyBear>> m;
      size_t rows = (size_t)1 << sim::Range(2, 4);
      for (size_t i = 0; i < n; ++i) {
        math::RowMajorMatrix<BabyBear> x(rows >> sim::Below(2), sim::Range(1, 4));
        for (Eigen::Index r = 0; r < x.rows(); ++r) for (Eigen::Index c = 0; c < x.cols(); ++c) x(r, c) = vu::Elem<BabyBear>();
        m.push_back(x);
      }
      sim::Describe("field merkle tree of %zu matrices", n);
      crypto::Poseidon2Sponge<P2BB> p;
      crypto::Poseidon2Sponge<PP2BB> pp;
      using S = std::decay_t<decltype(p)>;
      using PS = std::decay_t<decltype(pp)>;
      Tree a = Tree::BuildOwnedCpu(crypto::PaddingFreeSponge<S, 8, 8>(p), crypto::PaddingFreeSponge<PS, 8, 8>(pp), crypto::TruncatedPermutation<S, 8, 2>(p), crypto::TruncatedPermutation<PS, 8, 2>(pp), std::move(m));
      Obj<Tree>::Run(a, [&](auto& b) { return a == b; });
      break;
    }
  }
}

SIM_SCENARIO("C22", keys, sim::kIo, 3, 1) {
  ChooseForm();
  auto pts = [](size_t n) { vector<G1> v(n); for (auto& p : v) p = Pt<G1>(); return v; };
  auto same = [](const Kzg& a, const Kzg& b) { return a.g1_powers_of_tau() == b.g1_powers_of_tau() && a.g1_powers_of_tau_lagrange() == b.g1_powers_of_tau_lagrange(); };
  int which = (int)sim::Below(8);
  sim::Describe("key kind %d", which);
  size_t n = sim::Below(9);
  switch (which) {
    case 0: {
      Ped a(Pt<G1>(), pts(n));
      Obj<Ped>::Run(a, [&](auto& b) { return a.h() == b.h() && a.generators() == b.generators(); });
      break;
    }
    case 1: {
      Kzg a(pts(n), pts(n));
      Obj<Kzg>::Run(a, [&](auto& b) { return same(a, b); });
      break;
    }
    case 2: {
      Gwc a(Kzg(pts(n), pts(n)), Pt<G2>());
      Obj<Gwc>::Run(a, [&](auto& b) { return same(a.kzg(), b.kzg()) && a.s_g2() == b.s_g2(); });
      break;
    }
    case 3: {
      Shp a(Kzg(pts(n), pts(n)), Pt<G2>());
      Obj<Shp>::Run(a, [&](auto& b) { return same(a.kzg(), b.kzg()) && a.s_g2() == b.s_g2(); });
      break;
    }
    case 4: {
      crypto::SumcheckVerifyingKey a{Tr<size_t>::Make(), Tr<size_t>::Make()};
      Obj<crypto::SumcheckVerifyingKey>::Run(a, [&](auto& b) { return a.max_evaluations == b.max_evaluations && a.num_variables == b.num_variables; });
      break;
    }
    case 5: {
      using PK = crypto::SumcheckProvingKey<Mle<Fr>>;
      PK a{{Tr<size_t>::Make(), Tr<size_t>::Make()}, Tr<vector<math::LinearCombinationTerm<Fr>>>::Make(), Tr<vector<Mle<Fr>>>::Make()};
      auto eq = [](const PK& x, const PK& y) {
        return x.verifying_key.max_evaluations == y.verifying_key.max_evaluations && x.verifying_key.num_variables == y.verifying_key.num_variables &&
               Tr<vector<math::LinearCombinationTerm<Fr>>>::Eq(x.terms, y.terms) && Tr<vector<Mle<Fr>>>::Eq(x.flattened_ml_evaluations, y.flattened_ml_evaluations);
      };
      Obj<PK>::Run(a, [&](auto& b) { return eq(a, b) && a == b; });
      PK c = a;
      if (!c.flattened_ml_evaluations.empty()) {
        auto& m = c.flattened_ml_evaluations[sim::Below(c.flattened_ml_evaluations.size())];
        auto m2 = Tr<Mle<Fr>>::Make();
        bool differ = !Tr<Mle<Fr>>::Eq(m, m2) && !(m == m2);
        m = m2;
        if (differ) SIM_CHECK(!(a == c) && a != c, "keys of different polynomials compare equal");
      }
      break;
    }
    case 6: {
      using M = crypto::SumcheckProverMsg<Fr, kMax>;
      M a{Tr<Evals<Fr>>::Make()};
      Obj<M>::Run(a, [&](auto& b) { return Tr<Evals<Fr>>::Eq(a.evaluations, b.evaluations); });
      break;
    }
    default: {
      size_t k = sim::Range(0, 3);
      auto cols = [k] { vector<vector<Evals<Fr>>> v(k); for (auto& x : v) { x.resize(sim::Below(3)); for (auto& e : x) e = Tr<Evals<Fr>>::Make(); } return v; };
      auto blinds = Tr<vector<vector<Fr>>>::Make();
      auto polys = Tr<vector<vector<Dense<Fr>>>>::Make();
      blinds.resize(k), polys.resize(k);
      Arg a(cols(), std::move(blinds), Tr<vector<Fr>>::Make(), cols(), std::move(polys));
      Obj<Arg>::Run(a, [&](auto& b) { return a == b; });
      break;
    }
  }
}

// ---- JSON ------------------------------------------------------------------------------
namespace {
struct Rec {
  bool b;
  int8_t i8;
  uint16_t u16;
  int32_t i32;
  uint32_t u32;
  int64_t i64;
  uint64_t u64;
  double d;
  string s;
  Color c;
  std::array<int, 3> a;
  vector<string> vs;
  std::optional<uint32_t> o;
  math::BigInt<4> n;
  Fr f;
  BabyBear g;
  Fq2 e2;
  BabyBear4 e4;
  G1 p;
  math::bn254::G1JacobianPoint j;
  math::Point3<Fr> pt;
  math::Dimensions dim;
  Dense<Fr> poly;
  Sparse<BabyBear> sp;
  Evals<BabyBear> ev;
};
#define REC_FIELDS(X) X(b) X(i8) X(u16) X(i32) X(u32) X(i64) X(u64) X(d) X(s) X(c) X(a) X(vs) X(o) X(n) X(f) X(g) X(e2) X(e4) X(p) X(j) X(pt) X(dim) X(poly) X(sp) X(ev)
template <typename T>
struct Jt {
  static T Make() { return Tr<T>::Make(); }
  static bool Eq(const T& a, const T& b) { return Tr<T>::Eq(a, b); }
  static bool Ok(const T& a) { return Tr<T>::Ok(a); }
};
template <>
struct Jt<double> {
  static double Make() { static const double k[] = {0.0, 1.5, -2.25, 1e300, 123456789.125, 3.0}; return sim::Pick(k); }
  static bool Eq(double a, double b) { return a == b; }
  static bool Ok(double) { return true; }
};
template <>
struct Jt<std::optional<uint32_t>> {
  using T = std::optional<uint32_t>;
  static T Make() { return sim::Chance(1, 2) ? T() : T(Tr<uint32_t>::Make()); }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Ok(const T&) { return true; }
};
template <>
struct Jt<string> {  // JSON text is UTF-8
  static string Make() {
    string s;
    for (size_t n = sim::Below(8); n; --n) s += sim::Pick<const char*>({"a", "\"", "\\", "/", "\n", "\t", "\x01", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{", "]", "\x7f"}) ;
    if (sim::Chance(1, 4)) s.insert(sim::Below(2) ? s.size() : 0, 1, '\0');
    return s;
  }
  static bool Eq(const string& a, const string& b) { return a == b; }
  static bool Ok(const string&) { return true; }
};
template <>
struct Jt<vector<string>> {
  using T = vector<string>;
  static T Make() { T v(sim::Below(4)); for (auto& s : v) s = Jt<string>::Make(); return v; }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Ok(const T&) { return true; }
};
Rec MakeRec() {
  Rec r;
#define X(m) r.m = Jt<decltype(r.m)>::Make();
  REC_FIELDS(X)
#undef X
  return r;
}
void SameRec(const Rec& a, const Rec& b) {
#define X(m) SIM_CHECK((Jt<std::decay_t<decltype(a.m)>>::Eq(a.m, b.m)), "field " #m " changed");
  REC_FIELDS(X)
#undef X
}
void OkRec(const Rec& a) {
#define X(m) SIM_CHECK((Jt<std::decay_t<decltype(a.m)>>::Ok(a.m)), "field " #m " is out of range");
  REC_FIELDS(X)
#undef X
}
template <typename F>
void JsonForm(bool on) { base::RapidJsonValueConverter<F>::s_is_in_montgomery = on; }
}  // namespace
namespace tachyon::base {
template <>
class RapidJsonValueConverter<Rec> {
 public:
  template <typename Allocator>
  static rapidjson::Value From(const Rec& v, Allocator& allocator) {
    rapidjson::Value object(rapidjson::kObjectType);
#define X(m) AddJsonElement(object, #m, v.m, allocator);
    REC_FIELDS(X)
#undef X
    return object;
  }
  static bool To(const rapidjson::Value& json_value, std::string_view key, Rec* v, std::string* error) {
    Rec r;
#define X(m) if (!ParseJsonElement(json_value, #m, &r.m, error)) return false;
    REC_FIELDS(X)
#undef X
    *v = std::move(r);
    return true;
  }
};
}  // namespace tachyon::base
namespace {
void DamageText(string* s) {
  int n = (int)sim::Range(1, 2);
  for (int i = 0; i < n && !s->empty(); ++i) {
    sim::NoteFault(sim::kCorrupt);
    size_t at = sim::Below(s->size());
    switch (sim::Below(7)) {
      case 0: s->resize(at); break;
      case 1: (*s)[at] = (char)sim::Rand(); break;
      case 2: (*s)[at] = "{}[]\",:-9ef0x.ntu\\"[sim::Below(18)]; break;
      case 3: s->insert(at, 1, "{}[]\",:-9ef0x.ntu\\"[sim::Below(18)]); break;
      case 4: s->erase(at, sim::Range(1, 5)); break;
      case 5: {  // a number or a string becomes another
        size_t d = s->find_first_of("0123456789", at);
        if (d == string::npos) break;
        size_t e = d;
        while (e < s->size() && isalnum((*s)[e])) ++e;
        string with = sim::Pick<string>({"-1", "0", "99999999999999999999999", "4294967296", "2013265921", "4294967295", "65536", "128", "1e400", "-0", "1.5", "null", "true", "{}", "[]", "\"-5\"", "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "-0x5"});
        s->replace(d, e - d, with);
        break;
      }
      default: {  // an object or array becomes something else
        size_t d = s->find_first_of("{[", at);
        if (d == string::npos) break;
        int depth = 0;
        size_t e = d;
        for (; e < s->size(); ++e) {
          if ((*s)[e] == '{' || (*s)[e] == '[') ++depth;
          if ((*s)[e] == '}' || (*s)[e] == ']') if (!--depth) break;
        }
        s->replace(d, e - d + 1, sim::Pick<string>({"1", "\"x\"", "null", "[]", "{}", "[1,2]", "{\"x\":1}"}));
        break;
      }
    }
  }
}
}  // namespace

SIM_SCENARIO("C22", json, sim::kIo, 4, 1) {
  bool mont = sim::Chance(1, 3);
  JsonForm<Fr>(mont);
  JsonForm<Fq>(mont);
  JsonForm<BabyBear>(mont);
  Rec r = MakeRec();
  string text = base::WriteToJson(r);
  sim::Describe("json %zu bytes%s", text.size(), mont ? " montgomery" : "");
  string error;
  Rec back;
  SIM_CHECK(base::ParseJson(text, &back, &error), "parsing back failed: %s", error.c_str());
  SameRec(r, back);
  for (int k = 0; k < 10; ++k) {
    string t = text;
    if (k == 0) t.resize(sim::Below(t.size()));
    else DamageText(&t);
    Block b(t);
    Rec x;
    string err;
    if (base::ParseJson(std::string_view((const char*)b.p, b.n), &x, &err)) {
      sim::Count("damaged json accepted");
      OkRec(x);
      SIM_CHECK(k, "parsed from a text cut short");
    } else sim::Count("damaged json refused");
  }
}

SIM_SCENARIO("C22", numbers, sim::kIo, 2, 1) {
  // Text forms of big numbers, as they appear in key files.
  math::BigInt<4> n = Tr<math::BigInt<4>>::Make();
  sim::Describe("numbers");
  auto h = math::BigInt<4>::FromHexString(n.ToHexString(sim::Chance(1, 2)));
  SIM_CHECK(h && *h == n, "hexadecimal round trip");
  auto d = math::BigInt<4>::FromDecString(n.ToString());
  SIM_CHECK(d && *d == n, "decimal round trip");
  Fr f = vu::Elem<Fr>();
  auto fh = Fr::FromHexString(f.ToHexString(sim::Chance(1, 2)));
  auto fd = Fr::FromDecString(f.ToString());
  SIM_CHECK(fh && *fh == f && fd && *fd == f, "field element text round trip");
  string neg = "-" + (n.IsZero() ? string("1") : n.ToString());
  SIM_CHECK(!math::BigInt<4>::FromDecString(neg), "a negative number was accepted as an unsigned one");
  SIM_CHECK(!math::BigInt<4>::FromHexString("-" + (n.IsZero() ? string("1") : n.ToHexString().substr(2))), "a negative number was accepted as an unsigned one");
  // one past what fits
  string wide = "1" + string(64, "0123456789abcdef"[sim::Below(16)]);
  SIM_CHECK(!math::BigInt<4>::FromHexString(wide), "a number of 257 bits was accepted into 256");
  math::BigInt<4> over = Fr::Config::kModulus;
  over.limbs[0] += sim::Below(1000);
  auto big = Fr::FromDecString(over.ToString());
  SIM_CHECK(!big || big->value() < Fr::Config::kModulus, "an element beyond the modulus was accepted");
  auto bigh = Fr::FromHexString(over.ToHexString());
  SIM_CHECK(!bigh || bigh->value() < Fr::Config::kModulus, "an element beyond the modulus was accepted");
}

// ---- through the disk, with faults and a crash ---------------------------------------------
SIM_SCENARIO("C22", stored, sim::kIo, 3, 10) {
  fs::MkdirP("/d");
  bool json = sim::Chance(1, 2);
  bool crash = sim::Chance(2, 3);
  JsonForm<Fr>(false);
  JsonForm<Fq>(false);
  JsonForm<BabyBear>(false);
  constexpr uint32_t kW = sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio) | sim::Bit(sim::kEnospc);
  auto put = [&](const string& data) {
    bool ok = false;
    auto act = [&] {
      base::File f(base::FilePath("/d/v"), base::File::FLAG_CREATE_ALWAYS | base::File::FLAG_WRITE);
      if (!f.IsValid()) return;
      ok = f.WriteAtCurrentPosAndCheck(absl::Span<const uint8_t>((const uint8_t*)data.data(), data.size()));
    };
    if (crash) {
      bool done = sim::RunCrashable([&] { sim::EnableFaults(kW | sim::Bit(sim::kCrash)); act(); sim::DisableFaults(); });
      sim::DisableFaults();
      if (!done) ok = false;
    } else {
      sim::EnableFaults(kW);
      act();
      sim::DisableFaults();
    }
    return ok;
  };
  if (!json) {
    Seq s = MakeSeq(5);
    base::Uint8VectorBuffer w;
    w.set_endian(s.endian);
    WriteAll(s, &w);
    bool ok = put(BytesOf(w));
    // restart: a new process reads what is on the disk
    string disk;
    sim::EnableFaults(sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio));
    uint32_t at = sim::FaultsInjected();
    bool read = base::ReadFileToString(base::FilePath("/d/v"), &disk);
    sim::DisableFaults();
    if (!read) { SIM_CHECK(!ok || sim::FaultsInjected() != at, "a stored file cannot be read"); return; }
    if (ok) SIM_CHECK(disk == s.bytes, "stored bytes");
    SIM_CHECK(disk.size() <= s.bytes.size() && s.bytes.compare(0, disk.size(), disk) == 0, "an interrupted write left something other than a prefix");
    ReadCut(s, disk);
    return;
  }
  Rec r = MakeRec();
  string text = base::WriteToJson(r);
  sim::Describe("json %zu bytes on disk", text.size());
  bool ok = put(text);
  Rec x;
  string error;
  sim::EnableFaults(sim::Bit(sim::kEintr) | sim::Bit(sim::kShort) | sim::Bit(sim::kEio));
  uint32_t at = sim::FaultsInjected();
  bool read = base::LoadAndParseJson(base::FilePath("/d/v"), &x, &error);
  sim::DisableFaults();
  if (read) SameRec(r, x);
  else SIM_CHECK(!ok || sim::FaultsInjected() != at, "a stored record cannot be read: %s", error.c_str());
  if (!read) SIM_CHECK(!error.empty(), "a failure without a reason");
}
