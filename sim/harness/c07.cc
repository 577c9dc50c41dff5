// C07: univariate polynomial arithmetic against schoolbook arithmetic on coefficient vectors.
#include "fft.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

using namespace tachyon;
using namespace tachyon::math;
SIM_WARMUP(fields) {
  BabyBear::Init();
  PackedFieldTraits<BabyBear>::PackedField::Init();
  bn254::Fr::Init();
  GF7::Init();
  LOG(ERROR) << "warm up";
}
namespace {
constexpr size_t kMax = 1 << 16;
template <typename F> using D = UnivariateDensePolynomial<F, kMax>;
template <typename F> using S = UnivariateSparsePolynomial<F, kMax>;
template <typename F> using Ev = UnivariateEvaluations<F, kMax>;
template <typename F> using V = std::vector<F>;

template <typename F>
D<F> Dense(const V<F>& v) { return D<F>(typename D<F>::Coefficients(V<F>(v), true)); }
template <typename F>
S<F> Sparse(const V<F>& v) {
  using T = UnivariateTerm<F>;
  std::vector<T> t;
  for (size_t i = 0; i < v.size(); ++i) if (!v[i].IsZero()) t.push_back(T{i, v[i]});
  return S<F>(typename S<F>::Coefficients(std::move(t)));
}
template <typename F>
void Is(const D<F>& p, const V<F>& want, const char* what) {
  V<F> w = fft::Trim(want);
  const V<F>& g = p.coefficients().coefficients();
  SIM_CHECK(g.empty() || !g.back().IsZero(), "%s: leading zero terms are kept (%zu coefficients)", what, g.size());
  vu::Same(g, w, what);
  SIM_CHECK(p.IsZero() == w.empty() && p.Degree() == (w.empty() ? 0 : w.size() - 1) && p.NumElements() == w.size() && p.IsOne() == (w.size() == 1 && w[0].IsOne()) &&
                p.GetLeadingCoefficient() == (w.empty() ? F::Zero() : w.back()) && p[w.size() + 1].IsZero(),
            "%s: degree or kind of the result", what);
  vu::OutcomeVec(g);
}
template <typename F>
void Is(const S<F>& p, const V<F>& want, const char* what) {
  V<F> w = fft::Trim(want);
  const auto& t = p.coefficients().terms();
  size_t k = 0;
  for (size_t i = 0; i < w.size(); ++i) {
    if (w[i].IsZero()) continue;
    SIM_CHECK(k < t.size() && t[k].degree == i && t[k].coefficient == w[i], "%s: term of degree %zu is missing or wrong", what, i);
    ++k;
  }
  SIM_CHECK(k == t.size(), "%s: %zu terms instead of %zu", what, t.size(), k);
  SIM_CHECK(p.IsZero() == w.empty() && p.Degree() == (w.empty() ? 0 : w.size() - 1) && p.GetLeadingCoefficient() == (w.empty() ? F::Zero() : w.back()), "%s: degree", what);
  for (size_t i = 0; i <= w.size(); ++i) if (sim::Chance(1, 4)) SIM_CHECK(p[i] == (i < w.size() ? w[i] : F::Zero()), "%s: coefficient %zu", what, i);
}
template <typename F>
V<F> AddV(const V<F>& a, const V<F>& b, bool neg) {
  V<F> r(std::max(a.size(), b.size()), F::Zero());
  for (size_t i = 0; i < r.size(); ++i) {
    if (i < a.size()) r[i] = a[i];
    if (i < b.size()) r[i] = neg ? r[i] - b[i] : r[i] + b[i];
  }
  return fft::Trim(r);
}
template <typename F>
V<F> MulV(const V<F>& a, const V<F>& b) {
  if (a.empty() || b.empty()) return {};
  V<F> r(a.size() + b.size() - 1, F::Zero());
  for (size_t i = 0; i < a.size(); ++i) if (!a[i].IsZero()) for (size_t j = 0; j < b.size(); ++j) r[i + j] = r[i + j] + a[i] * b[j];
  return fft::Trim(r);
}
template <typename F>
V<F> Scale(const V<F>& a, const F& s) {
  V<F> r;
  for (const F& x : a) r.push_back(x * s);
  return fft::Trim(r);
}
template <typename F>
void DivV(V<F> a, const V<F>& b, V<F>* q, V<F>* r) {
  q->assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, F::Zero());
  F inv = *b.back().Inverse();
  while (a.size() >= b.size() && !a.empty()) {
    F c = a.back() * inv;
    size_t d = a.size() - b.size();
    (*q)[d] = c;
    for (size_t i = 0; i < b.size(); ++i) a[d + i] = a[d + i] - c * b[i];
    a = fft::Trim(a);
  }
  *q = fft::Trim(*q);
  *r = a;
}
template <typename F>
V<F> Poly(size_t max) {
  size_t n = vu::Size(max);
  V<F> v = fft::Trim(vu::Vec<F>(n));
  switch (sim::Below(12)) {
    case 0: return {};
    case 1: return {F::One()};
    case 2: if (!v.empty()) { F t = v.back(); for (F& x : v) x = F::Zero(); v.back() = t; } return v;  // a monomial
    default: return v;
  }
}
template <typename F>
V<F> Related(const V<F>& a, size_t max) {  // often one whose leading terms cancel those of |a|
  switch (sim::Below(6)) {
    case 0: return a;
    case 1: return Scale(a, F::Zero() - F::One());
    case 2: { V<F> b = a; size_t k = b.empty() ? 0 : sim::Below(b.size()); for (size_t i = 0; i < k; ++i) b[i] = vu::Elem<F>(); for (F& x : b) x = F::Zero() - x; return fft::Trim(b); }
    case 3: { V<F> b = a; size_t k = b.empty() ? 0 : sim::Below(b.size()); for (size_t i = 0; i < k; ++i) b[i] = vu::Elem<F>(); return fft::Trim(b); }
    default: return Poly<F>(max);
  }
}
const char* Name(int op) {
  static const char* k[] = {"sum", "difference", "product"};
  return k[op];
}
template <typename A, typename B>
auto Binary(int op, const A& a, const B& b) -> decltype(a + b) {
  if (op == 0) return a + b;
  if (op == 1) return a - b;
  return a * b;
}
template <typename A, typename B>
void InPlace(int op, A& a, const B& b) {
  if (op == 0) a += b;
  else if (op == 1) a -= b;
  else a *= b;
}
template <typename F>
void Arithmetic(const char* field) {
  int op = (int)sim::Below(3), shape = (int)sim::Below(4), mode = (int)sim::Below(4);
  V<F> a = Poly<F>(op == 2 ? 150 : sim::Chance(1, 8) ? 3000 : 200), b = Related(a, op == 2 ? 150 : 200);
  V<F> want = op == 2 ? MulV(a, b) : AddV(a, b, op == 1);
  sim::Describe("%s %s %zu,%zu shape=%d mode=%d", field, Name(op), a.size(), b.size(), shape, mode);
  if (mode == 3) {  // with itself
    want = op == 0 ? AddV(a, a, false) : op == 1 ? V<F>() : MulV(a, a);
    if (shape & 1) { S<F> p = Sparse(a); InPlace(op, p, p); Is(p, want, Name(op)); }
    else { D<F> p = Dense(a); InPlace(op, p, p); Is(p, want, Name(op)); }
    return;
  }
  if (mode == 0) {
    if (shape == 0) { D<F> x = Dense(a), y = Dense(b); Is(Binary(op, x, y), want, Name(op)); Is(x, a, "left operand"); Is(y, b, "right operand"); }
    if (shape == 1) { D<F> x = Dense(a); S<F> y = Sparse(b); Is(Binary(op, x, y), want, Name(op)); Is(x, a, "left operand"); Is(y, b, "right operand"); }
    if (shape == 2) { S<F> x = Sparse(a); D<F> y = Dense(b); Is(Binary(op, x, y), want, Name(op)); Is(x, a, "left operand"); Is(y, b, "right operand"); }
    if (shape == 3) { S<F> x = Sparse(a), y = Sparse(b); Is(Binary(op, x, y), want, Name(op)); Is(x, a, "left operand"); Is(y, b, "right operand"); }
  } else {
    if (shape == 0 || shape == 2) { D<F> x = Dense(a), y = Dense(b); InPlace(op, x, y); Is(x, want, Name(op)); Is(y, b, "right operand"); }
    if (shape == 1) { D<F> x = Dense(a); S<F> y = Sparse(b); InPlace(op, x, y); Is(x, want, Name(op)); Is(y, b, "right operand"); }
    if (shape == 3) { S<F> x = Sparse(a), y = Sparse(b); InPlace(op, x, y); Is(x, want, Name(op)); Is(y, b, "right operand"); }
  }
}
template <typename F>
void Scalar(const char* field) {
  int op = (int)sim::Below(4);
  V<F> a = Poly<F>(sim::Chance(1, 6) ? 3000 : 200);
  F s = vu::Elem<F>();
  bool sparse = sim::Chance(1, 2), in_place = sim::Chance(1, 2);
  sim::Describe("%s scalar op=%d n=%zu sparse=%d in_place=%d", field, op, a.size(), sparse, in_place);
  auto both = [&](auto p) {
    auto q = p;
    if (op == 0) {
      V<F> want = Scale(a, F::Zero() - F::One());
      if (in_place) { q.NegateInPlace(); Is(q, want, "negation"); } else Is(-p, want, "negation");
    } else if (op == 1) {
      V<F> want = Scale(a, s);
      if (in_place) { q *= s; Is(q, want, "scalar product"); } else Is(p * s, want, "scalar product");
    } else if (op == 2) {
      if (in_place) {
        auto r = q /= s;
        SIM_CHECK(r.has_value() == !s.IsZero(), "scalar division: zero divisor");
        if (r) Is(q, Scale(a, *s.Inverse()), "scalar quotient");
      } else {
        auto r = p / s;
        SIM_CHECK(r.has_value() == !s.IsZero(), "scalar division: zero divisor");
        if (r) Is(*r, Scale(a, *s.Inverse()), "scalar quotient");
      }
    } else {
      V<F> want((a.size() + 1) / 2, F::Zero());
      for (size_t i = 0; i < a.size(); ++i) want[i / 2] = want[i / 2] + (i % 2 ? a[i] * s : a[i]);
      Is(p.Fold(s), want, "fold");
    }
    Is(p, a, "operand");
  };
  if (sparse) both(Sparse(a)); else both(Dense(a));
}
template <typename F, typename A, typename B>
void Divide(const A& x, const B& y, const V<F>& a, const V<F>& b, int mode) {
  V<F> q, r;
  if (!b.empty()) DivV(a, b, &q, &r);
  if (mode == 0) {
    auto g = x / y;
    SIM_CHECK(g.has_value() == !b.empty() || (a.empty() && b.empty()), "division by %s", b.empty() ? "zero accepted" : "non-zero refused");
    if (g && !b.empty()) Is(*g, q, "quotient");
  } else if (a.empty()) {
    return;  // see zero_dividend
  } else if (mode == 1) {
    auto g = x % y;
    SIM_CHECK(g.has_value() == !b.empty(), "remainder by %s", b.empty() ? "zero accepted" : "non-zero refused");
    if (g) Is(*g, r, "remainder");
  } else if (mode == 2) {
    auto g = x.DivMod(y);
    SIM_CHECK(g.has_value() == !b.empty(), "division by %s", b.empty() ? "zero accepted" : "non-zero refused");
    if (g) { Is(g->quotient, q, "quotient"); Is(g->remainder, r, "remainder"); }
  } else if constexpr (std::is_same_v<A, D<F>>) {
    A z = x;
    if (mode == 3) {
      auto g = z.DivInPlace(y);
      SIM_CHECK(g.has_value() == !b.empty(), "division by %s", b.empty() ? "zero accepted" : "non-zero refused");
      if (g) Is(z, q, "quotient"); else Is(z, a, "dividend after a refused division");
    } else {
      auto g = z.ModInPlace(y);
      SIM_CHECK(g.has_value() == !b.empty(), "remainder by %s", b.empty() ? "zero accepted" : "non-zero refused");
      if (g) Is(z, r, "remainder"); else Is(z, a, "dividend after a refused division");
    }
  }
  Is(y, b, "divisor");
  Is(x, a, "dividend");
}
template <typename F>
void Division(const char* field) {
  int shape = (int)sim::Below(4), mode = (int)sim::Below(5);
  V<F> b = Poly<F>(60), a;
  switch (sim::Below(4)) {
    case 0: a = MulV(b, Poly<F>(60)); break;                                       // exact
    case 1: a = AddV(MulV(b, Poly<F>(60)), Poly<F>(b.size() / 2 + 1), false); break;  // small remainder
    default: a = Poly<F>(150);
  }
  sim::Describe("%s division %zu by %zu shape=%d mode=%d", field, a.size(), b.size(), shape, mode);
  if (shape == 0) Divide<F>(Dense(a), Dense(b), a, b, mode);
  if (shape == 1) Divide<F>(Dense(a), Sparse(b), a, b, mode);
  if (shape == 2) Divide<F>(Sparse(a), Dense(b), a, b, mode);
  if (shape == 3) Divide<F>(Sparse(a), Sparse(b), a, b, mode);
}
template <typename F>
void Evaluation(const char* field) {
  V<F> a = Poly<F>(sim::Chance(1, 6) ? 4000 : 300);
  F x = vu::Elem<F>();
  int op = (int)sim::Below(6);
  sim::Describe("%s evaluation op=%d n=%zu", field, op, a.size());
  F got, want = fft::Horner(a, x);
  if (op == 0) {
    got = Dense(a).Evaluate(x);
  } else if (op == 1) {
    if (sim::Chance(1, 2)) { a.resize(sim::Below(20000) + 1, F::Zero()); a.back() = F::One(); want = fft::Horner(a, x); }
    got = Sparse(a).Evaluate(x);
  } else if (op == 2) {
    got = D<F>::EvaluateVanishingPolyByRoots(a, x);
    want = F::One();
    for (const F& r : a) want = want * (x - r);
  } else if (op == 3) {
    a.resize(std::min<size_t>(a.size(), 120));
    V<F> w = {F::One()};
    for (const F& r : a) w = MulV(w, V<F>{F::Zero() - r, F::One()});
    Is(D<F>::FromRoots(a), w, "polynomial from roots");
    Is(S<F>::FromRoots(a), w, "sparse polynomial from roots");
    return;
  } else if (op == 4) {
    Is(Dense(a).ToSparse(), a, "conversion to sparse");
    Is(Sparse(a).ToDense(), a, "conversion to dense");
    Is(Dense(a).ToDense(), a, "conversion to dense");
    V<F> b = Related(a, 50);
    SIM_CHECK((Dense(a) == Dense(b)) == (a == b) && (Sparse(a) != Sparse(b)) == (a != b), "comparison");
    return;
  } else {
    V<F> raw = a;
    for (size_t k = sim::Below(4); k; --k) raw.push_back(F::Zero());
    Is(D<F>(typename D<F>::Coefficients(raw, true)), a, "clean-up on construction");
    size_t d = sim::Below(40);
    auto p = D<F>::Random(d);
    SIM_CHECK(p.Degree() == d && !p.GetLeadingCoefficient().IsZero(), "random polynomial of degree %zu", d);
    return;
  }
  SIM_CHECK(got == want, "value at a point is wrong");
  sim::Outcome(&got, sizeof got);
}
template <typename F>
void Combination(const char* field) {
  size_t n = sim::Range(1, 6);
  std::vector<V<F>> ps;
  for (size_t i = 0; i < n; ++i) ps.push_back(Poly<F>(sim::Chance(1, 8) ? 2000 : 100));
  F r = vu::Elem<F>();
  bool fwd = sim::Chance(1, 2), in_place = sim::Chance(1, 2), evals = sim::Chance(1, 3);
  sim::Describe("%s combination of %zu fwd=%d in_place=%d evals=%d", field, n, fwd, in_place, evals);
  if (evals) { size_t len = std::max<size_t>(ps[0].size(), 1); for (auto& p : ps) { p = sim::Chance(1, 8) ? V<F>() : vu::Vec<F>(len); } }
  V<F> want;
  for (size_t i = 0; i < n; ++i) want = AddV(want, Scale(ps[i], fft::Pow(r, fwd ? n - 1 - i : i)), false);
  if (evals) {
    std::vector<Ev<F>> v;
    for (auto& p : ps) v.push_back(Ev<F>(p));
    Ev<F> got;
    if (in_place) got = fwd ? Ev<F>::template LinearCombinationInPlace<true>(v, r) : Ev<F>::template LinearCombinationInPlace<false>(v, r);
    else got = fwd ? Ev<F>::template LinearCombination<true>(v, r) : Ev<F>::template LinearCombination<false>(v, r);
    V<F> g = fft::Trim(got.evaluations());
    vu::Same(g, want, "combination of evaluations");
    vu::OutcomeVec(g);
  } else {
    std::vector<D<F>> v;
    for (auto& p : ps) v.push_back(Dense(p));
    D<F> got;
    if (in_place) got = fwd ? D<F>::template LinearCombinationInPlace<true>(v, r) : D<F>::template LinearCombinationInPlace<false>(v, r);
    else got = fwd ? D<F>::template LinearCombination<true>(v, r) : D<F>::template LinearCombination<false>(v, r);
    Is(got, want, "combination");
  }
}
template <typename F>
void Evals(const char* field) {
  int op = (int)sim::Below(8);
  bool in_place = sim::Chance(1, 2);
  size_t n = vu::Size(sim::Chance(1, 6) ? 3000 : 150);
  V<F> a = sim::Chance(1, 10) ? V<F>() : vu::Vec<F>(n), b = sim::Chance(1, 10) ? V<F>() : vu::Vec<F>(n);
  bool odd = sim::Chance(1, 12) && op < 4 && !a.empty() && !b.empty();
  if (odd) b.resize(b.size() + 1 + sim::Below(3), F::One());
  F s = vu::Elem<F>();
  bool div_ok = sim::Chance(2, 3);
  if (op == 3 && div_ok) for (F& x : b) if (x.IsZero()) x = F::One();
  sim::Describe("%s evaluations op=%d in_place=%d n=%zu,%zu", field, op, in_place, a.size(), b.size());
  Ev<F> x(a), y(b);
  size_t m = std::max(a.size(), b.size());
  auto at = [](const V<F>& v, size_t i) { return i < v.size() ? v[i] : F::Zero(); };
  V<F> want(m, F::Zero());
  if (odd && op != 3) {
    sim::MustAbort("evaluations on different domains", [&] { if (op == 0) x += y; else if (op == 1) x -= y; else x *= y; });
    return;
  }
  auto is = [&](const Ev<F>& g, const char* what) {
    SIM_CHECK(g.evaluations().size() == m || g.evaluations().empty(), "%s: %zu values instead of %zu", what, g.evaluations().size(), m);
    for (size_t i = 0; i < m; ++i) SIM_CHECK(g[i] == want[i], "%s: value %zu of %zu", what, i, m);
    SIM_CHECK(g.IsZero() == fft::Trim(want).empty() && (g == Ev<F>(want)) , "%s: zero test or comparison", what);
    V<F> o = fft::Trim(g.evaluations());
    vu::OutcomeVec(o);
  };
  switch (op) {
    case 0: for (size_t i = 0; i < m; ++i) want[i] = at(a, i) + at(b, i); if (in_place) { x += y; is(x, "sum"); } else is(x + y, "sum"); break;
    case 1: for (size_t i = 0; i < m; ++i) want[i] = at(a, i) - at(b, i); if (in_place) { x -= y; is(x, "difference"); } else is(x - y, "difference"); break;
    case 2: for (size_t i = 0; i < m; ++i) want[i] = at(a, i) * at(b, i); if (in_place) { x *= y; is(x, "product"); } else is(x * y, "product"); break;
    case 3: {
      bool zero = b.empty(), undefined = b.empty();
      for (const F& v : b) zero |= v.IsZero();
      bool ok = !zero && a.size() == b.size();
      if (a.empty() && !undefined) return;  // zero over anything
      if (ok) for (size_t i = 0; i < m; ++i) want[i] = a[i] * *b[i].Inverse();
      if (in_place) { auto g = x /= y; SIM_CHECK(g.has_value() == ok, "quotient: %s", ok ? "refused" : "accepted"); if (g) is(x, "quotient"); }
      else { auto g = x / y; SIM_CHECK(g.has_value() == ok, "quotient: %s", ok ? "refused" : "accepted"); if (g) is(*g, "quotient"); }
      break;
    }
    case 4: m = a.size(); want = a; for (F& v : want) v = F::Zero() - v; if (in_place) { x.NegateInPlace(); is(x, "negation"); } else is(-x, "negation"); break;
    case 5: m = a.size(); want = a; for (F& v : want) v = v * s; if (in_place) { x *= s; is(x, "scalar product"); } else is(x * s, "scalar product"); break;
    case 6: {
      m = a.size(); want = a;
      if (!s.IsZero()) for (F& v : want) v = v * *s.Inverse();
      if (in_place) { auto g = x /= s; SIM_CHECK(g.has_value() == !s.IsZero(), "scalar quotient"); if (g) is(x, "scalar quotient"); }
      else { auto g = x / s; SIM_CHECK(g.has_value() == !s.IsZero(), "scalar quotient"); if (g) is(*g, "scalar quotient"); }
      break;
    }
    default: {
      m = a.size(); want = a;
      is(x, "evaluations");
      if (op == 7 && sim::Chance(1, 2)) { Ev<F> z = x; z -= z; want.assign(m, F::Zero()); is(z, "difference with itself"); }
    }
  }
}
template <typename F>
void Interpolation(const char* field) {
  size_t n = sim::Range(0, 40);
  V<F> xs, ys;
  if (std::is_same_v<F, GF7>) n = sim::Below(8);
  while (xs.size() < n) {
    F x = std::is_same_v<F, GF7> ? vu::Uni<F>() : vu::Elem<F>();
    if (std::find(xs.begin(), xs.end(), x) == xs.end()) xs.push_back(x);
  }
  V<F> c = fft::Trim(vu::Vec<F>(sim::Chance(1, 3) ? sim::Below(n + 1) : n));
  for (const F& x : xs) ys.push_back(fft::Horner(c, x));
  bool bad = sim::Chance(1, 10);
  sim::Describe("%s interpolation through %zu points, mismatch=%d", field, n, bad);
  D<F> p;
  if (bad) {
    ys.push_back(F::One());
    SIM_CHECK(!LagrangeInterpolate(xs, ys, &p), "points and values of different number accepted");
    return;
  }
  SIM_CHECK(LagrangeInterpolate(xs, ys, &p), "interpolation refused");
  Is(p, c, "interpolation");
}
}  // namespace
#define PER_FIELD(fn)                                  \
  switch (sim::Below(3)) {                             \
    case 0: fn<BabyBear>("BabyBear"); break;           \
    case 1: fn<GF7>("GF7"); break;                     \
    default: fn<bn254::Fr>("bn254 Fr");                \
  }
SIM_SCENARIO("C07", arithmetic, sim::kOmp | sim::kSameOutcome, 5, 6) { PER_FIELD(Arithmetic) }
SIM_SCENARIO("C07", scalar, sim::kOmp | sim::kSameOutcome, 3, 6) { PER_FIELD(Scalar) }
SIM_SCENARIO("C07", division, sim::kOmp | sim::kSameOutcome, 3, 4) { PER_FIELD(Division) }
SIM_SCENARIO("C07", evaluation, sim::kOmp | sim::kSameOutcome, 4, 6) { PER_FIELD(Evaluation) }
SIM_SCENARIO("C07", combination, sim::kOmp | sim::kSameOutcome, 2, 6) { PER_FIELD(Combination) }
SIM_SCENARIO("C07", evaluations, sim::kOmp | sim::kSameOutcome, 4, 6) { PER_FIELD(Evals) }
SIM_SCENARIO("C07", interpolation, sim::kOmp | sim::kSameOutcome, 3, 6) { PER_FIELD(Interpolation) }
// Kept apart: the existing tests of the repository pin what is returned here.
SIM_SCENARIO("C07", zero_dividend, sim::kOmp | sim::kSameOutcome, 1, 2) {
  using F = BabyBear;
  V<F> b;
  while (b.empty()) b = Poly<F>(20);
  int k = (int)sim::Below(3);
  sim::Describe("zero modulo a polynomial of %zu coefficients, way %d", b.size(), k);
  auto g = k == 0 ? Dense(V<F>()) % Dense(b) : k == 1 ? Dense(V<F>()) % Sparse(b) : Sparse(V<F>()) % Dense(b);
  SIM_CHECK(g.has_value(), "zero modulo a non-zero polynomial refused");
  SIM_CHECK(g->IsZero() || *g == Dense(b), "zero modulo g is neither zero nor g");
  SIM_CHECK(g->IsZero(), "zero modulo g is g");
}
