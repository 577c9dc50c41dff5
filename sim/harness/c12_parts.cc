// The arguments that a PLONK proof is made of, each against its definition: compressed expressions,
// multiplicities and grand sums, permuted pairs and grand products, copy permutations, gate graphs.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "fft.h"
#include "tachyon/base/parallelize.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/base/entities/prover_base.h"
#include "tachyon/zk/lookup/halo2/prover.h"
#include "tachyon/zk/lookup/log_derivative_halo2/prover.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_prover.h"
#include "tachyon/zk/plonk/permutation/permutation_utils.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
#include "tachyon/zk/shuffle/prover.h"

namespace {
using namespace tachyon;
using namespace tachyon::zk;
using F = math::bn254::Fr;
constexpr size_t kDeg = 127;
using Poly = math::UnivariateDensePolynomial<F, kDeg>;
using Evals = math::UnivariateEvaluations<F, kDeg>;
using Domain = math::UnivariateEvaluationDomain<F, kDeg>;
struct Pcs {
  using Field = F;
  using Poly = ::Poly;
  using Evals = ::Evals;
  using Domain = ::Domain;
  using ExtendedDomain = ::Domain;
  using ExtendedEvals = ::Evals;
  using Commitment = math::bn254::G1AffinePoint;
  size_t n = 0;
  size_t N() const { return n; }
};
struct Blinds : RandomFieldGeneratorBase<F> {
  F Generate() override { return vu::Uni<F>(); }
};
using Expr = std::unique_ptr<Expression<F>>;
using Factory = plonk::ExpressionFactory<F>;

// An expression in a form of its own.
struct Node {
  enum Op { kConst, kFixed, kAdvice, kInstance, kChallenge, kNeg, kSum, kProduct, kScaled } op;
  F value;
  size_t column = 0;
  int rotation = 0;
  std::shared_ptr<Node> l, r;
};
using N = std::shared_ptr<Node>;

struct Env {
  size_t n, nc;
  RowIndex bf, usable;
  std::unique_ptr<Domain> domain;
  Blinds blinds;
  std::unique_ptr<ProverBase<Pcs>> prover;
  std::vector<Evals> fixed;
  std::vector<std::vector<Evals>> advice, instance;
  std::vector<F> challenges;
  size_t base_fixed, base_advice;

  std::vector<F> Small() {  // values that repeat
    std::vector<F> v(sim::Range(1, 6));
    for (auto& x : v) x = vu::Elem<F>();
    return v;
  }
  Evals Column() {
    std::vector<F> v = vu::Vec<F>(n);
    if (sim::Chance(1, 2)) { std::vector<F> s = Small(); for (auto& x : v) x = s[sim::Below(s.size())]; }
    return Evals(std::move(v));
  }
  Env() {
    n = size_t{1} << sim::Range(2, 6);
    bf = static_cast<RowIndex>(sim::Range(1, std::min<size_t>(n - 2, 6)));
    usable = static_cast<RowIndex>(n) - bf - 1;
    nc = sim::Range(1, 3);
    domain = Domain::Create(n);
    prover = std::make_unique<ProverBase<Pcs>>(Pcs{n}, nullptr, Blinder<F>(&blinds, bf));
    prover->set_domain(Domain::Create(n));
    SIM_CHECK(prover->GetUsableRows() == usable, "%u usable rows", prover->GetUsableRows());
    for (size_t i = sim::Range(1, 3); i-- > 0;) fixed.push_back(Column());
    base_fixed = fixed.size();
    size_t na = sim::Range(1, 3), ni = sim::Range(1, 2);
    base_advice = na;
    for (size_t c = 0; c < nc; ++c) {
      advice.emplace_back();
      instance.emplace_back();
      for (size_t i = 0; i < na; ++i) advice[c].push_back(Column());
      for (size_t i = 0; i < ni; ++i) instance[c].push_back(Column());
    }
    challenges = vu::Vec<F>(sim::Range(1, 2));
  }
  const F& Cell(const std::vector<Evals>& t, const Node& x, size_t row, size_t scale, size_t size) const {
    int64_t i = (static_cast<int64_t>(row) + static_cast<int64_t>(x.rotation) * static_cast<int64_t>(scale)) % static_cast<int64_t>(size);
    return t[x.column].evaluations()[i < 0 ? i + size : i];
  }
  F Value(const N& x, size_t c, size_t row, size_t scale = 1) const {
    switch (x->op) {
      case Node::kConst: return x->value;
      case Node::kFixed: return Cell(fixed, *x, row, scale, n);
      case Node::kAdvice: return Cell(advice[c], *x, row, scale, n);
      case Node::kInstance: return Cell(instance[c], *x, row, scale, n);
      case Node::kChallenge: return challenges[x->column];
      case Node::kNeg: return F::Zero() - Value(x->l, c, row, scale);
      case Node::kSum: return Value(x->l, c, row, scale) + Value(x->r, c, row, scale);
      case Node::kProduct: return Value(x->l, c, row, scale) * Value(x->r, c, row, scale);
      case Node::kScaled: return Value(x->l, c, row, scale) * x->value;
    }
    return F::Zero();
  }
  static size_t Degree(const N& x) {
    switch (x->op) {
      case Node::kConst: case Node::kChallenge: return 0;
      case Node::kFixed: case Node::kAdvice: case Node::kInstance: return 1;
      case Node::kNeg: case Node::kScaled: return Degree(x->l);
      case Node::kSum: return std::max(Degree(x->l), Degree(x->r));
      case Node::kProduct: return Degree(x->l) + Degree(x->r);
    }
    return 0;
  }
  Expr Build(const N& x) const {
    plonk::FixedColumnKey fk(x->column);
    plonk::AdviceColumnKey ak(x->column);
    plonk::InstanceColumnKey ik(x->column);
    Rotation rot(x->rotation);
    switch (x->op) {
      case Node::kConst: return Factory::Constant(x->value);
      case Node::kFixed: return Factory::Fixed(plonk::FixedQuery(x->column, rot, fk));
      case Node::kAdvice: return Factory::Advice(plonk::AdviceQuery(x->column, rot, ak));
      case Node::kInstance: return Factory::Instance(plonk::InstanceQuery(x->column, rot, ik));
      case Node::kChallenge: return Factory::Challenge(plonk::Challenge(x->column, plonk::kFirstPhase));
      case Node::kNeg: return Factory::Negated(Build(x->l));
      case Node::kSum: { Expr l = Build(x->l), r = Build(x->r); return Factory::Sum(std::move(l), std::move(r)); }
      case Node::kProduct: { Expr l = Build(x->l), r = Build(x->r); return Factory::Product(std::move(l), std::move(r)); }
      case Node::kScaled: return Factory::Scaled(Build(x->l), x->value);
    }
    return nullptr;
  }
  N Make(Node::Op op, N l = nullptr, N r = nullptr) const {
    N x = std::make_shared<Node>();
    x->op = op;
    x->value = F::Zero();
    x->l = l;
    x->r = r;
    return x;
  }
  N Query(Node::Op op, size_t column, int rotation = 0) const {
    N x = Make(op);
    x->column = column;
    x->rotation = rotation;
    return x;
  }
  N Random(int depth) const {  // over the columns that exist at first
    if (depth == 0 || sim::Chance(1, 4)) {
      int rot = sim::Chance(1, 2) ? 0 : static_cast<int>(sim::Below(2 * n)) - static_cast<int>(n);
      if (sim::Chance(1, 2)) rot = static_cast<int>(sim::Below(5)) - 2;
      switch (sim::Below(9)) {
        case 0: { N x = Make(Node::kConst); x->value = sim::Chance(1, 2) ? F(static_cast<unsigned>(sim::Below(4))) : vu::Elem<F>(); return x; }
        case 1: return Query(Node::kChallenge, sim::Below(challenges.size()));
        case 2: case 3: return Query(Node::kFixed, sim::Below(base_fixed), rot);
        case 4: case 5: return Query(Node::kInstance, sim::Below(instance[0].size()), rot);
        default: return Query(Node::kAdvice, sim::Below(base_advice), rot);
      }
    }
    switch (sim::Below(6)) {
      case 0: return Make(Node::kNeg, Random(depth - 1));
      case 1: case 2: { N l = Random(depth - 1); return Make(Node::kSum, l, sim::Chance(1, 6) ? l : Random(depth - 1)); }
      case 3: case 4: { N l = Random(depth - 1); return Make(Node::kProduct, l, sim::Chance(1, 6) ? l : Random(depth - 1)); }
      default: { N x = Make(Node::kScaled, Random(depth - 1)); x->value = sim::Chance(1, 2) ? F(static_cast<unsigned>(sim::Below(4))) : vu::Elem<F>(); return x; }
    }
  }
  std::vector<plonk::MultiPhaseRefTable<Evals>> Tables() const {
    std::vector<plonk::MultiPhaseRefTable<Evals>> t;
    for (size_t c = 0; c < nc; ++c)
      t.emplace_back(absl::MakeConstSpan(fixed), absl::MakeConstSpan(advice[c]), absl::MakeConstSpan(instance[c]), absl::MakeConstSpan(challenges));
    return t;
  }
  std::vector<Expr> BuildAll(const std::vector<N>& v) const {
    std::vector<Expr> o;
    for (auto& x : v) o.push_back(Build(x));
    return o;
  }
  F Compressed(const std::vector<N>& v, const F& theta, size_t c, size_t row) const {
    F s = F::Zero();
    for (auto& x : v) s = s * theta + Value(x, c, row);
    return s;
  }
  void CheckCompressed(const Evals& e, const std::vector<N>& v, const F& theta, size_t c, const char* what) const {
    SIM_CHECK(e.evaluations().size() == n, "%s: %zu compressed values", what, e.evaluations().size());
    for (size_t i = 0; i < n; ++i) SIM_CHECK(e.evaluations()[i] == Compressed(v, theta, c, i), "%s: wrong compressed value in row %zu of %zu", what, i, n);
  }
  // Fresh advice columns turn the expressions into any wanted values.
  std::vector<N> Reaching(size_t width) {
    std::vector<N> v;
    for (size_t i = 0; i < width; ++i) {
      for (auto& a : advice) a.push_back(Evals(vu::Vec<F>(n)));
      N e = Random(static_cast<int>(sim::Below(3)));
      N q = Query(Node::kAdvice, advice[0].size() - 1);
      v.push_back(sim::Chance(1, 4) ? q : sim::Chance(1, 2) ? Make(Node::kSum, e, q) : Make(Node::kSum, q, e));
    }
    return v;
  }
  void Reach(const N& x, size_t c, size_t row, const F& want) {
    const N& q = x->op == Node::kAdvice ? x : x->l->op == Node::kAdvice && x->l->column >= base_advice ? x->l : x->r;
    F& cell = advice[c][q->column].evaluations()[row];
    cell = F::Zero();
    cell = want - Value(x, c, row);
  }
};

template <typename B>
void CheckPoly(const Env& e, const B& blinded, const std::vector<F>& values, const char* what) {
  size_t i = sim::Below(e.n);
  SIM_CHECK(blinded.poly().Evaluate(e.domain->GetElement(i)) == values[i], "%s: the polynomial differs from its values", what);
}

// A row of the table for every row of the inputs.
struct Lookup {
  std::vector<std::vector<N>> inputs;
  std::vector<N> table;
};
std::vector<Lookup> Lookups(Env& e, bool one) {
  std::vector<Lookup> v(sim::Range(1, 2));
  for (auto& l : v) {
    size_t width = sim::Range(1, 3);
    for (size_t s = one ? 1 : sim::Range(1, 4); s-- > 0;) l.inputs.push_back(e.Reaching(width));
    for (size_t i = 0; i < width; ++i)
      l.table.push_back(sim::Chance(1, 2) ? e.Query(Node::kFixed, sim::Below(e.base_fixed)) : e.Random(static_cast<int>(sim::Below(3))));
    for (size_t c = 0; c < e.nc; ++c)
      for (auto& in : l.inputs) {
        bool few = sim::Chance(1, 3);
        size_t some = sim::Below(e.usable);
        for (size_t row = 0; row < e.usable; ++row) {
          size_t from = few ? some : sim::Below(e.usable);
          for (size_t i = 0; i < width; ++i) e.Reach(in[i], c, row, e.Value(l.table[i], c, from));
        }
      }
  }
  return v;
}
std::vector<lookup::Argument<F>> Arguments(const Env& e, const std::vector<Lookup>& v, bool one) {
  std::vector<lookup::Argument<F>> a;
  for (auto& l : v) {
    std::vector<std::vector<Expr>> in;
    for (auto& x : l.inputs) in.push_back(e.BuildAll(x));
    if (one && sim::Chance(1, 2)) {
      lookup::Pairs<Expr> p;
      std::vector<Expr> t = e.BuildAll(l.table);
      for (size_t i = 0; i < t.size(); ++i) p.emplace_back(std::move(in[0][i]), std::move(t[i]));
      a.emplace_back("lookup", std::move(p));
    } else {
      a.emplace_back("lookup", std::move(in), e.BuildAll(l.table));
    }
  }
  return a;
}
std::vector<F> First(const std::vector<F>& v, size_t k) {
  std::vector<F> o(v.begin(), v.begin() + k);
  std::sort(o.begin(), o.end());
  return o;
}

void LogDerivative() {
  using P = lookup::log_derivative_halo2::Prover<Poly, Evals>;
  Env e;
  std::vector<Lookup> ls = Lookups(e, false);
  std::vector<lookup::Argument<F>> args = Arguments(e, ls, false);
  F theta = vu::Elem<F>(), beta = vu::Uni<F>();
  sim::Describe("%zu rows, %zu circuits, %zu lookups of %zu inputs", e.n, e.nc, ls.size(), ls[0].inputs.size());
  std::vector<P> ps(e.nc);
  P::BatchCompressPairs(ps, e.domain.get(), args, theta, e.Tables());
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].compressed_inputs_vec().size() == ls.size() && ps[c].compressed_tables().size() == ls.size(), "wrong number of compressed lookups");
    for (size_t a = 0; a < ls.size(); ++a) {
      SIM_CHECK(ps[c].compressed_inputs_vec()[a].size() == ls[a].inputs.size(), "wrong number of compressed inputs");
      for (size_t s = 0; s < ls[a].inputs.size(); ++s) e.CheckCompressed(ps[c].compressed_inputs_vec()[a][s], ls[a].inputs[s], theta, c, "inputs");
      e.CheckCompressed(ps[c].compressed_tables()[a], ls[a].table, theta, c, "table");
    }
  }
  P::BatchComputeMPolys(ps, e.prover.get());
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].m_polys().size() == ls.size(), "%zu multiplicity polynomials", ps[c].m_polys().size());
    for (size_t a = 0; a < ls.size(); ++a) {
      const std::vector<F>& m = ps[c].m_polys()[a].evals().evaluations();
      const std::vector<F>& t = ps[c].compressed_tables()[a].evaluations();
      SIM_CHECK(m.size() == e.n, "%zu multiplicities", m.size());
      std::map<F, size_t> used;
      std::map<F, F> counted;
      for (auto& in : ps[c].compressed_inputs_vec()[a]) for (size_t i = 0; i < e.usable; ++i) ++used[in.evaluations()[i]];
      for (size_t i = 0; i < e.usable; ++i) { auto it = counted.emplace(t[i], F::Zero()).first; it->second += m[i]; }
      for (auto& x : counted) SIM_CHECK(x.second == F(static_cast<uint64_t>(used.count(x.first) ? used[x.first] : 0)), "a table entry that is looked up %zu times has another multiplicity", used.count(x.first) ? used[x.first] : 0);
      for (size_t i = e.usable; i < e.n; ++i) SIM_CHECK(m[i].IsZero(), "a multiplicity in row %zu outside the usable %u", i, e.usable);
    }
  }
  P::BatchCreateGrandSumPolys(ps, e.prover.get(), beta);
  std::vector<std::vector<F>> phis, ms;
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].grand_sum_polys().size() == ls.size(), "%zu grand sums", ps[c].grand_sum_polys().size());
    for (size_t a = 0; a < ls.size(); ++a) {
      const std::vector<F>& m = ps[c].m_polys()[a].evals().evaluations();
      const std::vector<F>& t = ps[c].compressed_tables()[a].evaluations();
      const std::vector<F>& phi = ps[c].grand_sum_polys()[a].evals().evaluations();
      SIM_CHECK(phi.size() == e.n && phi[0].IsZero(), "the grand sum does not start with zero");
      F sum = F::Zero();
      for (size_t i = 0; i < e.usable; ++i) {
        for (auto& in : ps[c].compressed_inputs_vec()[a]) sum += *(in.evaluations()[i] + beta).Inverse();
        sum -= m[i] * *(t[i] + beta).Inverse();
        SIM_CHECK(phi[i + 1] == sum, "the grand sum is wrong in row %zu of %u usable", i + 1, e.usable);
      }
      SIM_CHECK(phi[e.usable].IsZero(), "the grand sum of a satisfied lookup does not end with zero");
      phis.push_back(phi);
      ms.push_back(m);
    }
  }
  P::TransformEvalsToPoly(ps, e.domain.get());
  for (size_t c = 0, k = 0; c < e.nc; ++c)
    for (size_t a = 0; a < ls.size(); ++a, ++k) {
      CheckPoly(e, ps[c].grand_sum_polys()[a], phis[k], "grand sum");
      CheckPoly(e, ps[c].m_polys()[a], ms[k], "multiplicities");
    }
  sim::Count("log-derivative lookups", e.nc * ls.size());
}

void Halo2Lookup() {
  using P = lookup::halo2::Prover<Poly, Evals>;
  Env e;
  std::vector<Lookup> ls = Lookups(e, true);
  std::vector<lookup::Argument<F>> args = Arguments(e, ls, true);
  F theta = vu::Elem<F>(), beta = vu::Uni<F>(), gamma = vu::Uni<F>();
  sim::Describe("%zu rows, %zu circuits, %zu lookups", e.n, e.nc, ls.size());
  std::vector<P> ps(e.nc);
  P::BatchCompressPairs(ps, e.domain.get(), args, theta, e.Tables());
  std::vector<std::vector<F>> as, ts;
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].compressed_pairs().size() == ls.size(), "wrong number of compressed lookups");
    for (size_t a = 0; a < ls.size(); ++a) {
      e.CheckCompressed(ps[c].compressed_pairs()[a].input(), ls[a].inputs[0], theta, c, "inputs");
      e.CheckCompressed(ps[c].compressed_pairs()[a].table(), ls[a].table, theta, c, "table");
      as.push_back(ps[c].compressed_pairs()[a].input().evaluations());
      ts.push_back(ps[c].compressed_pairs()[a].table().evaluations());
    }
  }
  P::BatchPermutePairs(ps, e.prover.get());
  for (size_t c = 0, k = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].permuted_pairs().size() == ls.size(), "wrong number of permuted lookups");
    for (size_t a = 0; a < ls.size(); ++a, ++k) {
      const std::vector<F>& pa = ps[c].permuted_pairs()[a].input().evals().evaluations();
      const std::vector<F>& pt = ps[c].permuted_pairs()[a].table().evals().evaluations();
      SIM_CHECK(pa.size() == e.n && pt.size() == e.n, "wrong number of permuted values");
      SIM_CHECK(First(pa, e.usable) == First(as[k], e.usable), "the permuted inputs are no permutation of the inputs");
      SIM_CHECK(First(pt, e.usable) == First(ts[k], e.usable), "the permuted table is no permutation of the table");
      SIM_CHECK(pa[0] == pt[0], "the first permuted input is not the first permuted table entry");
      for (size_t i = 1; i < e.usable; ++i) SIM_CHECK(pa[i] == pt[i] || pa[i] == pa[i - 1], "row %zu of the permuted inputs is in neither place", i);
    }
  }
  P::BatchCreateGrandProductPolys(ps, e.prover.get(), beta, gamma);
  std::vector<std::vector<F>> zs;
  for (size_t c = 0, k = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].grand_product_polys().size() == ls.size(), "wrong number of grand products");
    for (size_t a = 0; a < ls.size(); ++a, ++k) {
      const std::vector<F>& pa = ps[c].permuted_pairs()[a].input().evals().evaluations();
      const std::vector<F>& pt = ps[c].permuted_pairs()[a].table().evals().evaluations();
      const std::vector<F>& z = ps[c].grand_product_polys()[a].evals().evaluations();
      SIM_CHECK(z.size() == e.n && z[0].IsOne(), "the grand product does not start with one");
      for (size_t i = 0; i < e.usable; ++i)
        SIM_CHECK(z[i + 1] * (pa[i] + beta) * (pt[i] + gamma) == z[i] * (as[k][i] + beta) * (ts[k][i] + gamma), "the grand product is wrong in row %zu of %u usable", i + 1, e.usable);
      SIM_CHECK(z[e.usable].IsOne(), "the grand product of a satisfied lookup does not end with one");
      zs.push_back(z);
    }
  }
  P::TransformEvalsToPoly(ps, e.domain.get());
  for (size_t c = 0, k = 0; c < e.nc; ++c)
    for (size_t a = 0; a < ls.size(); ++a, ++k) CheckPoly(e, ps[c].grand_product_polys()[a], zs[k], "grand product");
  sim::Count("Halo2 lookups", e.nc * ls.size());
}

void Shuffle() {
  using P = shuffle::Prover<Poly, Evals>;
  Env e;
  size_t na = sim::Range(1, 2);
  std::vector<std::vector<N>> ins, outs;
  std::vector<shuffle::Argument<F>> args;
  for (size_t a = 0; a < na; ++a) {
    size_t width = sim::Range(1, 3);
    std::vector<N> in, out = e.Reaching(width);
    for (size_t i = 0; i < width; ++i) in.push_back(e.Random(static_cast<int>(sim::Below(3))));
    for (size_t c = 0; c < e.nc; ++c) {
      std::vector<size_t> perm(e.usable);
      for (size_t i = 0; i < e.usable; ++i) perm[i] = i;
      for (size_t i = e.usable; i > 1; --i) std::swap(perm[i - 1], perm[sim::Below(i)]);
      for (size_t row = 0; row < e.usable; ++row)
        for (size_t i = 0; i < width; ++i) e.Reach(out[i], c, row, e.Value(in[i], c, perm[row]));
    }
    ins.push_back(in);
    outs.push_back(out);
    args.emplace_back("shuffle", e.BuildAll(in), e.BuildAll(out));
  }
  F theta = vu::Elem<F>(), gamma = vu::Uni<F>();
  sim::Describe("%zu rows, %zu circuits, %zu shuffles", e.n, e.nc, na);
  std::vector<P> ps(e.nc);
  P::BatchCompressPairs(ps, e.domain.get(), args, theta, e.Tables());
  std::vector<std::vector<F>> as, ss;
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].compressed_pairs().size() == na, "wrong number of compressed shuffles");
    for (size_t a = 0; a < na; ++a) {
      e.CheckCompressed(ps[c].compressed_pairs()[a].input(), ins[a], theta, c, "inputs");
      e.CheckCompressed(ps[c].compressed_pairs()[a].shuffle(), outs[a], theta, c, "shuffled");
      as.push_back(ps[c].compressed_pairs()[a].input().evaluations());
      ss.push_back(ps[c].compressed_pairs()[a].shuffle().evaluations());
    }
  }
  P::BatchCreateGrandProductPolys(ps, e.prover.get(), gamma);
  std::vector<std::vector<F>> zs;
  for (size_t c = 0, k = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].grand_product_polys().size() == na, "wrong number of grand products");
    for (size_t a = 0; a < na; ++a, ++k) {
      const std::vector<F>& z = ps[c].grand_product_polys()[a].evals().evaluations();
      SIM_CHECK(z.size() == e.n && z[0].IsOne(), "the grand product does not start with one");
      for (size_t i = 0; i < e.usable; ++i) SIM_CHECK(z[i + 1] * (ss[k][i] + gamma) == z[i] * (as[k][i] + gamma), "the grand product is wrong in row %zu of %u usable", i + 1, e.usable);
      SIM_CHECK(z[e.usable].IsOne(), "the grand product of a shuffle does not end with one");
      zs.push_back(z);
    }
  }
  P::TransformEvalsToPoly(ps, e.domain.get());
  for (size_t c = 0, k = 0; c < e.nc; ++c)
    for (size_t a = 0; a < na; ++a, ++k) CheckPoly(e, ps[c].grand_product_polys()[a], zs[k], "grand product");
  sim::Count("shuffles", e.nc * na);
}

void Copies() {
  Env e;
  std::vector<plonk::AnyColumnKey> cols;
  for (size_t i = 0; i < e.advice[0].size(); ++i) cols.push_back(plonk::AdviceColumnKey(i));
  for (size_t i = 0; i < e.instance[0].size(); ++i) cols.push_back(plonk::InstanceColumnKey(i));
  for (size_t i = 0; i < e.fixed.size(); ++i) cols.push_back(plonk::FixedColumnKey(i));
  for (size_t i = cols.size(); i > 1; --i) std::swap(cols[i - 1], cols[sim::Below(i)]);
  cols.resize(sim::Range(1, cols.size()));
  size_t k = cols.size();
  plonk::PermutationArgument argument(cols);
  plonk::PermutationAssembly assembly(argument, static_cast<RowIndex>(e.n));
  std::vector<size_t> of(k * e.n);
  for (size_t i = 0; i < of.size(); ++i) of[i] = i;
  size_t copies = sim::Below(sim::Chance(1, 2) ? 6 : k * e.usable + 1);
  for (size_t i = 0; i < copies; ++i) {
    size_t ca = sim::Below(k), cb = sim::Below(k), ra = sim::Below(e.usable), rb = sim::Below(e.usable);
    assembly.Copy(cols[ca], static_cast<RowIndex>(ra), cols[cb], static_cast<RowIndex>(rb));
    size_t x = of[ca * e.n + ra], y = of[cb * e.n + rb];
    for (auto& o : of) if (o == x) o = y;
  }
  size_t degree = sim::Range(3, 6), chunk = degree - 2;
  sim::Describe("%zu rows, %zu circuits, %zu columns in chunks of %zu, %zu copies", e.n, e.nc, k, chunk, copies);
  // The cycles of the permutation are the classes of equal cells.
  std::vector<Evals> sigma = assembly.GeneratePermutations<Evals>(e.domain.get());
  SIM_CHECK(sigma.size() == k, "%zu permutation columns", sigma.size());
  F delta = plonk::GetDelta<F>();
  std::vector<F> label(k * e.n);
  std::map<F, size_t> cell;
  F d = F::One();
  for (size_t c = 0; c < k; ++c, d *= delta)
    for (size_t i = 0; i < e.n; ++i) cell[label[c * e.n + i] = d * e.domain->GetElement(i)] = c * e.n + i;
  SIM_CHECK(cell.size() == k * e.n, "two cells have the same label");
  std::vector<bool> seen(k * e.n);
  for (size_t s = 0; s < k * e.n; ++s) {
    if (seen[s]) continue;
    size_t at = s, len = 0, size = 0;
    do {
      SIM_CHECK(!seen[at] && of[at] == of[s], "the permutation leaves the cells that are equal to cell %zu", s);
      seen[at] = true;
      ++len;
      auto it = cell.find(sigma[at / e.n].evaluations()[at % e.n]);
      SIM_CHECK(it != cell.end(), "the permutation has a label of no cell");
      at = it->second;
    } while (at != s && len <= k * e.n);
    for (size_t o : of) size += o == of[s];
    SIM_CHECK(len == size, "a cycle of %zu cells for %zu equal cells", len, size);
  }
  // Fixed cells have the same value in all circuits, so a class takes that of a fixed cell.
  auto column = [&](size_t c, const plonk::AnyColumnKey& key) -> Evals& {
    return key.type() == plonk::ColumnType::kFixed ? e.fixed[key.index()] : key.type() == plonk::ColumnType::kAdvice ? e.advice[c][key.index()] : e.instance[c][key.index()];
  };
  for (size_t s = 0; s < of.size(); ++s) {  // fixed cells of a class first become equal
    if (cols[s / e.n].type() != plonk::ColumnType::kFixed) continue;
    for (size_t o = s + 1; o < of.size(); ++o)
      if (of[o] == of[s] && cols[o / e.n].type() == plonk::ColumnType::kFixed) column(0, cols[o / e.n]).evaluations()[o % e.n] = column(0, cols[s / e.n]).evaluations()[s % e.n];
  }
  for (size_t c = 0; c < e.nc; ++c)
    for (size_t s = 0; s < of.size(); ++s) {
      size_t from = of[s];
      for (size_t o = 0; o < of.size(); ++o) if (of[o] == of[s] && cols[o / e.n].type() == plonk::ColumnType::kFixed) { from = o; break; }
      column(c, cols[s / e.n]).evaluations()[s % e.n] = F(column(c, cols[from / e.n]).evaluations()[from % e.n]);
    }
  bool broken = sim::Chance(1, 6);
  if (broken) column(0, cols[0]).evaluations()[0] += F::One();
  std::vector<Evals> copy = sigma;
  plonk::PermutationProvingKey<Poly, Evals, Evals> key(std::move(copy), {}, {});
  using P = plonk::PermutationProver<Poly, Evals>;
  std::vector<P> ps(e.nc);
  F beta = vu::Uni<F>(), gamma = vu::Uni<F>();
  P::BatchCreateGrandProductPolys(ps, e.prover.get(), argument, e.Tables(), degree, key, beta, gamma);
  size_t chunks = (k + chunk - 1) / chunk;
  std::vector<std::vector<F>> zs;
  for (size_t c = 0; c < e.nc; ++c) {
    SIM_CHECK(ps[c].grand_product_polys().size() == chunks, "%zu grand products", ps[c].grand_product_polys().size());
    F last = F::One();
    for (size_t j = 0; j < chunks; ++j) {
      const std::vector<F>& z = ps[c].grand_product_polys()[j].evals().evaluations();
      SIM_CHECK(z.size() == e.n && z[0] == last, "grand product %zu does not start where the one before ends", j);
      for (size_t i = 0; i < e.usable; ++i) {
        F num = F::One(), den = F::One();
        for (size_t q = j * chunk; q < std::min(k, (j + 1) * chunk); ++q) {
          F v = column(c, cols[q]).evaluations()[i];
          num *= v + beta * label[q * e.n + i] + gamma;
          den *= v + beta * sigma[q].evaluations()[i] + gamma;
        }
        SIM_CHECK(z[i + 1] * den == z[i] * num, "grand product %zu of %zu is wrong in row %zu of %u usable", j, chunks, i + 1, e.usable);
      }
      last = z[e.usable];
      zs.push_back(z);
    }
    // Only cells of usable rows are copied, so the product telescopes.
    if (!broken) SIM_CHECK(last.IsOne(), "the grand product of satisfied copies does not end with one");
  }
  P::TransformEvalsToPoly(ps, e.domain.get());
  for (size_t c = 0, i = 0; c < e.nc; ++c)
    for (size_t j = 0; j < chunks; ++j, ++i) CheckPoly(e, ps[c].grand_product_polys()[j], zs[i], "grand product");
  sim::Count("copy permutations");
}

void Gates() {
  Env e;
  std::vector<N> gates(sim::Range(1, 6));
  for (size_t i = 0; i < gates.size(); ++i) gates[i] = i && sim::Chance(1, 6) ? gates[sim::Below(i)] : e.Random(static_cast<int>(sim::Range(1, 4)));
  std::vector<Expr> exprs = e.BuildAll(gates);
  size_t scale = size_t{1} << sim::Below(3);
  sim::Describe("%zu rows, %zu circuits, %zu gates, scale %zu", e.n, e.nc, gates.size(), scale);
  plonk::GraphEvaluator<F> graph;
  std::vector<plonk::ValueSource> parts;
  for (size_t i = 0; i < gates.size(); ++i) {
    SIM_CHECK(exprs[i]->Degree() == Env::Degree(gates[i]), "an expression of degree %zu claims %zu", Env::Degree(gates[i]), exprs[i]->Degree());
    Expr clone = exprs[i]->Clone();
    SIM_CHECK(*clone == *exprs[i], "a clone differs");
    parts.push_back(graph.AddExpression(exprs[i].get()));
  }
  graph.AddCalculation(plonk::Calculation::Horner(plonk::ValueSource::PreviousValue(), std::move(parts), plonk::ValueSource::Y()));
  F theta = vu::Elem<F>(), beta = vu::Elem<F>(), gamma = vu::Elem<F>(), y = vu::Elem<F>();
  std::vector<plonk::MultiPhaseRefTable<Evals>> tables = e.Tables();
  std::vector<F> values = vu::Vec<F>(e.n), want = values;
  for (size_t c = 0; c < e.nc; ++c) {
    for (size_t i = 0; i < e.n; ++i) for (auto& g : gates) want[i] = want[i] * y + e.Value(g, c, i, scale);
    base::Parallelize(values, [&](absl::Span<F> chunk, size_t chunk_offset, size_t chunk_size) {
      plonk::EvaluationInput<Evals> input(graph.CreateInitialIntermediates(), graph.CreateEmptyRotations(), tables[c], theta, beta, gamma, y, static_cast<int32_t>(e.n));
      for (size_t i = 0; i < chunk.size(); ++i) chunk[i] = graph.Evaluate(input, chunk_offset * chunk_size + i, static_cast<int32_t>(scale), chunk[i]);
    });
    for (size_t i = 0; i < e.n; ++i) SIM_CHECK(values[i] == want[i], "the gates evaluate to another value in row %zu of %zu", i, e.n);
    size_t g = sim::Below(gates.size()), i = sim::Below(e.n);
    plonk::ProvingEvaluator<Evals> one(static_cast<int32_t>(i), static_cast<int32_t>(e.n), static_cast<int32_t>(scale), tables[c]);
    SIM_CHECK(exprs[g]->Evaluate(&one) == e.Value(gates[g], c, i, scale), "an expression evaluates to another value");
  }
  sim::Count("gate graphs", e.nc);
}
}  // namespace

SIM_SCENARIO("C12", log_derivative_argument, sim::kOmp, 2, 6) { LogDerivative(); }
SIM_SCENARIO("C12", halo2_lookup_argument, sim::kOmp, 2, 5) { Halo2Lookup(); }
SIM_SCENARIO("C12", shuffle_argument, sim::kOmp, 1, 5) { Shuffle(); }
SIM_SCENARIO("C12", copy_permutation, sim::kOmp, 2, 5) { Copies(); }
SIM_SCENARIO("C12", gate_graphs, sim::kOmp, 2, 4) { Gates(); }
