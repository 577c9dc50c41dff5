// C08: multilinear sum-check. C27: multivariate polynomials.
#include <map>
#include <thread>
#include <memory>
#include "fft.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h"

using namespace tachyon;
using namespace tachyon::crypto;
using namespace tachyon::math;
SIM_WARMUP(fields) {
  bn254::Fr::Init();
  BabyBear::Init();
  GF7::Init();
  LOG(ERROR) << "warm up";
}
namespace {
constexpr size_t kVars = 12, kTerms = 40;
template <typename F>
using V = std::vector<F>;
template <typename F>
using Mle = MultilinearDenseEvaluations<F, kVars>;
// Fixes the lowest variables one by one.
template <typename F>
V<F> Fix(V<F> e, const V<F>& point) {
  for (const F& r : point) {
    V<F> n(e.size() / 2);
    for (size_t i = 0; i < n.size(); ++i) n[i] = e[2 * i] * (F::One() - r) + e[2 * i + 1] * r;
    e = n;
  }
  return e;
}
// By the definition: sum over the cube of value times the indicator polynomial.
template <typename F>
F ByDefinition(const V<F>& e, const V<F>& point) {
  F s = F::Zero();
  for (size_t i = 0; i < e.size(); ++i) {
    F t = e[i];
    for (size_t k = 0; k < point.size(); ++k) t = t * (i >> k & 1 ? point[k] : F::One() - point[k]);
    s = s + t;
  }
  return s;
}
template <typename F>
F Nat(size_t n) { F r = F::Zero(); for (size_t i = 0; i < n; ++i) r = r + F::One(); return r; }
template <typename F>
struct Claim {  // a random combination, held twice
  size_t v;
  std::vector<V<F>> tables;
  std::vector<std::pair<F, std::vector<size_t>>> terms;
  LinearCombination<Mle<F>> lc;
  size_t max = 0;
  Claim(size_t vars, size_t nterms, size_t maxfac) : v(vars), lc(vars) {
    size_t nt = sim::Range(1, 6);
    std::vector<std::shared_ptr<Mle<F>>> p;
    for (size_t i = 0; i < nt; ++i) { tables.push_back(vu::Vec<F>((size_t)1 << v)); p.push_back(std::make_shared<Mle<F>>(tables.back())); }
    for (size_t t = 0; t < nterms; ++t) {
      F c = vu::Elem<F>();
      std::vector<size_t> idx;
      std::vector<std::shared_ptr<Mle<F>>> f;
      for (size_t k = sim::Range(1, maxfac); k; --k) { idx.push_back(sim::Below(nt)); f.push_back(p[idx.back()]); }
      max = std::max(max, idx.size());
      terms.emplace_back(c, idx);
      lc.AddTerm(c, f);
    }
  }
  F At(const V<F>& point) const {  // value of the combination
    std::vector<F> m;
    for (auto& t : tables) m.push_back(Fix(t, point)[0]);
    F s = F::Zero();
    for (auto& [c, idx] : terms) { F x = c; for (size_t i : idx) x = x * m[i]; s = s + x; }
    return s;
  }
  F Sum() const {
    F s = F::Zero();
    for (size_t i = 0; i < (size_t)1 << v; ++i)
      for (auto& [c, idx] : terms) { F x = c; for (size_t k : idx) x = x * tables[k][i]; s = s + x; }
    return s;
  }
  // The polynomial of round |point.size()|, at x.
  F Round(const V<F>& point, const F& x) const {
    V<F> p = point;
    p.push_back(x);
    std::vector<V<F>> m;
    for (auto& t : tables) m.push_back(Fix(t, p));
    F s = F::Zero();
    for (size_t i = 0; i < m[0].size(); ++i)
      for (auto& [c, idx] : terms) { F y = c; for (size_t k : idx) y = y * m[k][i]; s = s + y; }
    return s;
  }
};
template <typename F>
void Sumcheck(const char* field) {
  size_t v = sim::Chance(1, 4) ? sim::Range(6, 10) : sim::Range(1, 6);
  size_t nt = sim::Range(1, 12), mf = v > 7 ? sim::Range(1, 4) : sim::Chance(1, 5) ? sim::Range(10, kTerms) : sim::Range(1, 6);
  Claim<F> cl(v, nt, mf);
  int tamper = sim::Chance(1, 2) ? 0 : (int)sim::Range(1, 3);  // nothing, a message, the sum, a whole polynomial
  size_t tround = sim::Below(v), tidx = sim::Below(cl.max + 1);
  F delta = vu::NonZero<F>();
  sim::Describe("%s variables=%zu terms=%zu factors<=%zu tamper=%d round=%zu value=%zu", field, v, nt, cl.max, tamper, tround, tidx);
  auto pk = SumcheckProvingKey<Mle<F>>::Build(cl.lc);
  auto vk = SumcheckVerifyingKey::Build(cl.lc);
  SumcheckProver<Mle<F>, kTerms> prover(pk);
  SumcheckVerifier<Mle<F>> verifier(vk);
  F sum = cl.lc.Combine(), want = cl.Sum();
  SIM_CHECK(sum == want, "sum over the cube is wrong");
  V<F> point;
  bool checked = false;
  SumcheckVerifierMsg<F> vm;
  for (size_t r = 0; r < v; ++r) {
    SumcheckProverMsg<F, kTerms> m = r == 0 ? prover.Round() : prover.Round(std::move(vm));
    const V<F>& e = m.evaluations.evaluations();
    SIM_CHECK(e.size() == cl.max + 1, "round %zu: %zu values for degree %zu", r, e.size(), cl.max);
    if (v <= 5 || (v <= 8 && !checked && sim::Chance(1, 3))) {
      checked = true;
      for (size_t i = 0; i < e.size(); ++i) SIM_CHECK(e[i] == cl.Round(point, Nat<F>(i)), "round %zu: value %zu is wrong", r, i);
    }
    if (r == 0) sim::Outcome(e.data(), e.size() * sizeof(F));  // later ones depend on the challenges
    if (tamper && r == tround) {
      V<F> c = e;
      if (tamper == 1) c[tidx] = c[tidx] + delta;
      if (tamper == 3) for (F& x : c) x = x + delta;
      if (tamper != 2) m.evaluations = UnivariateEvaluations<F, kTerms>(c);
    }
    vm = verifier.Round(std::move(m));
    point.push_back(vm.random_value);
  }
  Subclaim<F> sub;
  F claimed = tamper == 2 ? want + delta : want;
  bool ok = verifier.CheckAndGenerateSubclaim(claimed, &sub);
  if (!tamper) {
    SIM_CHECK(ok, "an honest proof was rejected");
    SIM_CHECK(sub.point == point, "the sub-claim is about another point");
    SIM_CHECK(sub.expected_evaluation == cl.At(point), "the sub-claim is false");
    SIM_CHECK(cl.lc.Evaluate(point) == cl.At(point), "value of the combination is wrong");
    sim::Count("honest");
  } else {
    sim::Count("tampered");
    if (tamper == 2) SIM_CHECK(!ok, "a wrong sum was accepted");
    if (ok) {
      // A changed value goes unnoticed where the polynomial sent happens to agree at the challenge.
      bool same = tidx > 1 && tamper == 1 && [&] {
        for (size_t i = 0; i <= cl.max; ++i) if (i != tidx && point[tround] == Nat<F>(i)) return true;
        return false;
      }();
      SIM_CHECK(same || !(sub.expected_evaluation == cl.At(point)), "a changed message went unnoticed");
    }
  }
}
template <typename F>
void Interpolate(const char* field, size_t limit) {
  size_t n = sim::Range(1, std::min<size_t>(limit, sim::Chance(1, 3) ? 400 : 50));
  V<F> c = vu::Vec<F>(n), e;
  F x = sim::Chance(1, 4) ? Nat<F>(sim::Below(n + 3)) : vu::Elem<F>();
  sim::Describe("%s interpolation of %zu values", field, n);
  for (size_t i = 0; i < n; ++i) e.push_back(fft::Horner(c, Nat<F>(i)));
  F got = InterpolateUniPoly(e, x);
  SIM_CHECK(got == fft::Horner(c, x), "interpolated value is wrong");
  sim::Outcome(&got, sizeof got);
}
template <typename F>
void Multilinear(const char* field) {
  size_t v = sim::Chance(1, 6) ? sim::Range(8, kVars) : sim::Range(0, 7), n = (size_t)1 << v;
  V<F> a = vu::Vec<F>(n), b = vu::Vec<F>(n);
  int za = (int)sim::Below(8), op = (int)sim::Below(8);
  bool in_place = sim::Chance(1, 2);
  if (op == 5 && sim::Chance(2, 3)) for (F& x : b) if (x.IsZero()) x = F::One();
  if (za == 0) a.clear();
  if (za == 1) b.clear();
  sim::Describe("%s multilinear op=%d of %zu and %zu values, in place=%d", field, op, a.size(), b.size(), in_place);
  using E = MultilinearExtension<Mle<F>>;
  E x{Mle<F>(a)}, y{Mle<F>(b)};
  auto is = [&](const E& got, const V<F>& want) {
    size_t z = 0;
    for (const F& w : want) z += w.IsZero();
    if (z == want.size() && got.evaluations().evaluations().empty()) return;
    SIM_CHECK(got.evaluations().evaluations() == want, "wrong values (%zu instead of %zu)", got.evaluations().evaluations().size(), want.size());
    sim::Outcome(want.data(), want.size() * sizeof(F));
  };
  V<F> w(n), fa = a, fb = b;
  fa.resize(n, F::Zero()); fb.resize(n, F::Zero());
  auto each = [&](auto f) { for (size_t i = 0; i < n; ++i) w[i] = f(fa[i], fb[i]); };
  switch (op) {
    case 0: each([](F p, F q) { return p + q; }); if (in_place) { x += y; is(x, w); } else is(x + y, w); break;
    case 1: each([](F p, F q) { return p - q; }); if (in_place) { x -= y; is(x, w); } else is(x - y, w); break;
    case 2: each([](F p, F q) { return p * q; }); if (in_place) { x *= y; is(x, w); } else is(x * y, w); break;
    case 3: each([](F p, F q) { return F::Zero() - p; }); if (in_place) { x.NegateInPlace(); is(x, w); } else is(-x, w); break;
    case 4: each([](F p, F q) { return p + p; }); if (in_place) { x += x; is(x, w); } else is(x + x, w); break;
    case 5: {
      bool zero = b.empty();
      for (const F& q : fb) zero |= q.IsZero();
      if (a.empty() && !b.empty()) zero = false;
      bool ok;
      E g;
      if (in_place) { auto r = x /= y; ok = r.has_value(); g = x; } else { auto r = x / y; ok = r.has_value(); if (ok) g = *r; }
      SIM_CHECK(ok == !zero, "quotient %s", ok ? "by zero accepted" : "refused");
      if (!ok) break;
      if (a.empty()) { SIM_CHECK(g.IsZero(), "zero divided is not zero"); break; }
      each([](F p, F q) { return p * *q.Inverse(); });
      is(g, w);
      break;
    }
    case 6: {  // fixing variables
      if (a.empty()) break;
      V<F> p = vu::Vec<F>(sim::Below(v + 1));
      Mle<F> m(a);
      Mle<F> f = in_place ? m.FixVariablesInPlace(p) : m.FixVariables(p);
      SIM_CHECK(f.evaluations() == Fix(a, p), "fixing %zu of %zu variables", p.size(), v);
      SIM_CHECK(m.evaluations() == (in_place ? f.evaluations() : a), "fixing variables changed the wrong thing");
      break;
    }
    default: {
      if (a.empty()) break;
      V<F> p = sim::Chance(1, 4) ? V<F>(v) : vu::Vec<F>(v);
      size_t k = sim::Below(n);
      bool corner = sim::Chance(1, 4);
      if (corner) for (size_t i = 0; i < v; ++i) p[i] = k >> i & 1 ? F::One() : F::Zero();
      F got = x.Evaluate(p);
      if (corner) SIM_CHECK(got == a[k], "value at corner %zu", k);
      SIM_CHECK(got == (v <= 7 ? ByDefinition(a, p) : Fix(a, p)[0]), "value is wrong");
    }
  }
}
// --- C27 ---
constexpr size_t kDeg = 60;
template <typename F>
using Coef = MultivariateSparseCoefficients<F, kDeg>;
using Exps = std::map<size_t, size_t>;  // variable -> exponent
template <typename F>
using Model = std::map<Exps, F>;
template <typename F>
Model<F> RandomModel(size_t vars, size_t terms) {
  Model<F> m;
  for (size_t t = 0; t < terms; ++t) {
    Exps e;
    size_t style = sim::Below(4);
    for (size_t v = 0; v < vars; ++v)
      if (style == 0 ? sim::Chance(1, vars) : sim::Chance(1, 2)) e[v] = sim::Chance(1, 3) ? 1 : sim::Range(1, 4);
    if (sim::Chance(1, 8)) e.clear();
    m[e] = vu::NonZero<F>();
  }
  return m;
}
template <typename F>
typename Coef<F>::Literal Lit(const Exps& e) {
  typename Coef<F>::Literal l;
  if (e.empty()) l.elements.push_back({0, 0});
  for (auto& [v, x] : e) l.elements.push_back({v, x});
  return l;
}
template <typename F>
MultivariatePolynomial<Coef<F>> Make(const Model<F>& m, size_t vars) {
  typename Coef<F>::Terms t;
  for (auto& [e, c] : m) t.push_back({Lit<F>(e), c});
  std::sort(t.begin(), t.end());
  return MultivariatePolynomial<Coef<F>>(Coef<F>(vars, std::move(t)));
}
template <typename F>
void IsModel(const MultivariatePolynomial<Coef<F>>& p, const Model<F>& m, size_t vars, const char* what) {
  Model<F> got;
  for (auto& t : p.coefficients().terms()) {
    Exps e;
    for (auto& x : t.literal.elements) if (x.exponent) e[x.variable] += x.exponent;
    SIM_CHECK(!t.coefficient.IsZero(), "%s: a term with coefficient zero was kept", what);
    SIM_CHECK(!got.count(e), "%s: the same monomial occurs twice", what);
    got[e] = t.coefficient;
  }
  Model<F> want;
  for (auto& [e, c] : m) if (!c.IsZero()) want[e] = c;
  SIM_CHECK(got == want, "%s: %zu terms, expected %zu, or other coefficients", what, got.size(), want.size());
  SIM_CHECK(p.IsZero() == want.empty(), "%s: IsZero", what);
  size_t degree = 0;
  for (auto& [e, c] : want) {
    SIM_CHECK(p[Lit<F>(e)] == c, "%s: look-up of a coefficient", what);
    size_t d = 0;
    for (auto& [v, n] : e) d += n;
    degree = std::max(degree, d);
  }
  SIM_CHECK(p.Degree() == degree, "%s: the degree is %zu, but %zu was returned", what, degree, p.Degree());
  if (!want.empty()) SIM_CHECK(p.coefficients().num_vars() == vars, "%s: the number of variables is %zu instead of %zu", what, p.coefficients().num_vars(), vars);
  V<F> x = vu::Vec<F>(vars);
  F v = F::Zero();
  for (auto& [e, c] : want) { F t = c; for (auto& [k, n] : e) t = t * vu::NaivePow(x[k], n); v = v + t; }
  SIM_CHECK(p.Evaluate(x) == v, "%s: value is wrong", what);
  sim::Outcome(&v, sizeof v);
}
template <typename F>
void Multivariate(const char* field) {
  size_t vars = sim::Range(1, 9), na = sim::Chance(1, 8) ? 0 : sim::Range(1, sim::Chance(1, 4) ? 60 : 8), nb = sim::Chance(1, 8) ? 0 : sim::Range(1, 12);
  size_t fewer = sim::Chance(1, 4) ? sim::Range(1, vars) : vars;  // the other one's variables
  Model<F> a = RandomModel<F>(vars, na), b = RandomModel<F>(fewer, nb);
  if (a.empty()) fewer = vars;
  if (fewer == vars) for (auto& [e, c] : a) if (sim::Chance(1, 3)) b[e] = sim::Chance(1, 2) ? F::Zero() - c : sim::Chance(1, 2) ? c : vu::NonZero<F>();
  if (sim::Chance(1, 8)) { b = a; fewer = vars; }
  int op = (int)sim::Below(7);
  bool in_place = sim::Chance(1, 2);
  sim::Describe("%s multivariate op=%d vars=%zu terms=%zu,%zu in place=%d", field, op, vars, a.size(), b.size(), in_place);
  auto x = Make(a, vars), y = Make(b, fewer);
  Model<F> w = a;
  switch (op) {
    case 0: case 1: for (auto& [e, c] : b) w[e] = w.count(e) ? w[e] + c : c; if (in_place) { x += y; IsModel(x, w, vars, "sum"); } else { auto z = x + y; IsModel(z, w, vars, "sum"); } break;
    case 2: case 3: for (auto& [e, c] : b) w[e] = w.count(e) ? w[e] - c : F::Zero() - c; if (in_place) { x -= y; IsModel(x, w, vars, "difference"); } else { auto z = x - y; IsModel(z, w, vars, "difference"); } break;
    case 4: for (auto& [e, c] : w) c = F::Zero() - c; if (in_place) { x.NegateInPlace(); IsModel(x, w, vars, "negation"); } else { auto z = -x; IsModel(z, w, vars, "negation"); } break;
    case 5: w.clear(); if (in_place) { x -= x; IsModel(x, w, vars, "difference with itself"); } else { auto z = x - x; IsModel(z, w, vars, "difference with itself"); } break;
    default: IsModel(x, w, vars, "polynomial");
  }
}
template <typename F>
void Readers(const char* field) {
  size_t vars = sim::Range(1, 6), n = sim::Range(1, 20);
  Model<F> m = RandomModel<F>(vars, n);
  const auto p = Make(m, vars);
  unsigned nt = (unsigned)sim::Range(2, 4);
  sim::Describe("%s %u readers of one polynomial, vars=%zu terms=%zu", field, nt, vars, m.size());
  size_t degree = 0;
  for (auto& [e, c] : m) { size_t d = 0; for (auto& [k, x] : e) d += x; degree = std::max(degree, d); }
  std::vector<V<F>> xs;
  V<F> ws;
  for (unsigned t = 0; t < nt * 2; ++t) {
    V<F> x = vu::Vec<F>(vars);
    F v = F::Zero();
    for (auto& [e, c] : m) { F u = c; for (auto& [k, a] : e) u = u * vu::NaivePow(x[k], a); v = v + u; }
    xs.push_back(x); ws.push_back(v);
  }
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    for (unsigned k = t * 2; k < t * 2 + 2; ++k) {
      SIM_CHECK(p.Evaluate(xs[k]) == ws[k], "one of several readers got a wrong value");
      SIM_CHECK(p.Degree() == degree, "one of several readers got a wrong degree");
      for (auto& [e, c] : m) SIM_CHECK(p[Lit<F>(e)] == c, "one of several readers got a wrong coefficient");
      auto z = p + p, o = p - p;
      SIM_CHECK(o.IsZero() && !(p != p), "one of several readers got a wrong difference");
      SIM_CHECK(z.Evaluate(xs[k]) == ws[k] + ws[k], "one of several readers got a wrong sum");
    }
  });
  for (auto& t : ts) t.join();
}
}  // namespace
SIM_SCENARIO("C08", sumcheck, sim::kOmp | sim::kSameOutcome, 5, 4) { if (sim::Chance(1, 3)) Sumcheck<bn254::Fr>("bn254 Fr"); else Sumcheck<BabyBear>("BabyBear"); }
SIM_SCENARIO("C08", interpolate, sim::kOmp | sim::kSameOutcome, 2, 4) {
  switch (sim::Below(3)) {
    case 0: Interpolate<bn254::Fr>("bn254 Fr", 1000); break;
    case 1: Interpolate<GF7>("GF7", 7); break;
    default: Interpolate<BabyBear>("BabyBear", 1000);
  }
}
SIM_SCENARIO("C08", multilinear, sim::kOmp | sim::kSameOutcome, 4, 4) {
  switch (sim::Below(3)) {
    case 0: Multilinear<bn254::Fr>("bn254 Fr"); break;
    case 1: Multilinear<GF7>("GF7"); break;
    default: Multilinear<BabyBear>("BabyBear");
  }
}
SIM_SCENARIO("C27", multivariate, sim::kOmp | sim::kSameOutcome, 4, 5) {
  switch (sim::Below(3)) {
    case 0: Multivariate<bn254::Fr>("bn254 Fr"); break;
    case 1: Multivariate<GF7>("GF7"); break;
    default: Multivariate<BabyBear>("BabyBear");
  }
}
SIM_SCENARIO("C27", readers, sim::kOmp | sim::kMt, 1, 5) { if (sim::Chance(1, 2)) Readers<bn254::Fr>("bn254 Fr"); else Readers<BabyBear>("BabyBear"); }
