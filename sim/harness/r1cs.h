// Random rank-1 constraint systems and their quadratic arithmetic program by definition.
#ifndef VERIF_R1CS_H_
#define VERIF_R1CS_H_
#include <map>
#include "fft.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/circuit.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"

using namespace tachyon;
using namespace tachyon::zk::r1cs;
namespace {
using F = math::bn254::Fr;
using Curve = math::bn254::BN254Curve;
using G1 = math::bn254::G1AffinePoint;
using G2 = math::bn254::G2AffinePoint;
using J1 = math::bn254::G1JacobianPoint;
using J2 = math::bn254::G2JacobianPoint;
constexpr size_t kMax = 127;
using Domain = math::UnivariateEvaluationDomain<F, kMax>;
using QAP = QuadraticArithmeticProgram<F>;
using Row = std::map<size_t, F>;

// A recipe for a constraint system, interpreted by Synthesize and, separately, by the oracle.
struct Ref { int kind; size_t i; };  // kind: 0 zero, 1 one, 2 instance, 3 witness, 4 symbolic
struct Lc { std::vector<std::pair<F, Ref>> t; int how = 0; };
struct Op { int kind; Lc a, b, c; F v; };  // 0 instance, 1 witness, 2 symbolic, 3 constraint

class Recipe : public Circuit<F> {
 public:
  std::vector<Op> ops;
  std::vector<F> inst = {F::One()}, wit;  // the assignment
  std::vector<Lc> syms;
  size_t nc = 0;

  F Val(const Ref& r) const {
    switch (r.kind) {
      case 0: return F::Zero();
      case 1: return F::One();
      case 2: return inst[r.i];
      case 3: return wit[r.i];
      default: return Val(syms[r.i]);
    }
  }
  F Val(const Lc& l) const {
    F s = F::Zero();
    for (auto& [c, r] : l.t) s += c * Val(r);
    return s;
  }
  // The row of |l| over (instances, witnesses), symbolic references expanded.
  void Expand(const Lc& l, const F& k, Row& row) const {
    for (auto& [c, r] : l.t) {
      if (r.kind == 0) continue;
      if (r.kind == 4) { Expand(syms[r.i], k * c, row); continue; }
      size_t i = r.kind == 1 ? 0 : r.kind == 2 ? r.i : inst.size() + r.i;
      auto it = row.emplace(i, F::Zero()).first;
      it->second += k * c;
    }
  }
  Row ToRow(const Lc& l) const {
    Row r;
    Expand(l, F::One(), r);
    for (auto it = r.begin(); it != r.end();) it = it->second.IsZero() ? r.erase(it) : std::next(it);
    return r;
  }
  bool Sat() const {
    for (auto& o : ops)
      if (o.kind == 3 && Val(o.a) * Val(o.b) != Val(o.c)) return false;
    return true;
  }
  std::vector<F> Full() const {
    std::vector<F> z = inst;
    z.insert(z.end(), wit.begin(), wit.end());
    return z;
  }
  std::vector<F> Public() const { return std::vector<F>(inst.begin() + 1, inst.end()); }

  static LinearCombination<F> Make(const Lc& l, const std::vector<Variable>& iv, const std::vector<Variable>& wv, const std::vector<Variable>& sv) {
    auto var = [&](const Ref& r) {
      switch (r.kind) {
        case 0: return Variable::Zero();
        case 1: return Variable::One();
        case 2: return iv[r.i];
        case 3: return wv[r.i];
        default: return sv[r.i];
      }
    };
    std::vector<Term<F>> terms;
    LinearCombination<F> lc;
    switch (l.how) {
      case 0:
        for (auto& [c, r] : l.t) terms.push_back({c, var(r)});
        return LinearCombination<F>(std::move(terms));
      case 1:
        for (auto& [c, r] : l.t) terms.push_back({c, var(r)});
        return LinearCombination<F>::CreateDeduplicated(std::move(terms));
      case 2:  // one term at a time, added or subtracted
        for (size_t i = 0; i < l.t.size(); ++i) {
          Term<F> t(l.t[i].first, var(l.t[i].second));
          if (i % 3 == 2) lc -= -t; else lc += t;
        }
        return lc;
      case 3: {  // sum or difference of two halves
        LinearCombination<F> h[2];
        for (size_t i = 0; i < l.t.size(); ++i) h[i % 2] += Term<F>(l.t[i].first, var(l.t[i].second));
        return h[0] + h[1];
      }
      default: {
        LinearCombination<F> h[2];
        for (size_t i = 0; i < l.t.size(); ++i) h[i % 2] += Term<F>(l.t[i].first, var(l.t[i].second));
        return h[0] - (-h[1]);
      }
    }
  }
  mutable std::vector<Variable> iv_, wv_, sv_;
  void Synthesize(ConstraintSystem<F>& cs) const override {
    std::vector<Variable> iv = {Variable::One()}, wv, sv;
    size_t i = 1, w = 0;
    for (auto& o : ops) {
      switch (o.kind) {
        case 0: iv.push_back(cs.CreateInstanceVariable([this, i]() { return inst[i]; })); ++i; break;
        case 1: wv.push_back(cs.CreateWitnessVariable([this, w]() { return wit[w]; })); ++w; break;
        case 2: sv.push_back(cs.CreateLinearCombination(Make(o.a, iv, wv, sv))); break;
        default: cs.EnforceConstraint(Make(o.a, iv, wv, sv), Make(o.b, iv, wv, sv), Make(o.c, iv, wv, sv));
      }
    }
    iv_ = iv; wv_ = wv; sv_ = sv;
  }

  Lc RandLc(size_t max) const {
    Lc l;
    l.how = (int)sim::Below(5);
    for (size_t k = sim::Below(max + 1); k; --k) {
      Ref r{1, 0};
      switch (sim::Below(8)) {
        case 0: break;
        case 1: if (sim::Chance(1, 6)) r = {0, 0}; break;
        case 2: case 3: if (inst.size() > 1) r = {2, (size_t)sim::Range(1, inst.size() - 1)}; break;
        case 4: if (!syms.empty()) { r = {4, (size_t)sim::Below(syms.size())}; break; } [[fallthrough]];
        default: if (!wit.empty()) r = {3, (size_t)sim::Below(wit.size())};
      }
      l.t.push_back({vu::Elem<F>(), r});
    }
    if (sim::Chance(1, 4) && !l.t.empty()) l.t.push_back(l.t[sim::Below(l.t.size())]);  // a repeated variable
    return l;
  }
  void AddInstance(const F& v) { inst.push_back(v); ops.push_back({0, {}, {}, {}, v}); }
  void AddWitness(const F& v) { wit.push_back(v); ops.push_back({1, {}, {}, {}, v}); }
  // A random satisfied system with at most |max| constraints and instances together.
  static Recipe Random(size_t max, bool zero_products = false) {
    Recipe r;
    size_t left = max - 1;
    size_t width = sim::Pick<size_t>({1, 2, 3, 5, 9, 14});
    bool nowit = sim::Chance(1, 12);
    for (size_t k = sim::Below(4); k && left > 1; --k, --left) r.AddInstance(vu::Elem<F>());
    for (size_t k = sim::Below(4); k && !nowit; --k) r.AddWitness(vu::Elem<F>());
    size_t want = sim::Range(0, left);
    if (sim::Chance(1, 3)) want = std::min<size_t>(want, 4);
    while (r.nc < want) {
      switch (sim::Below(6)) {
        case 0: if (!nowit) r.AddWitness(vu::Elem<F>()); continue;
        case 1: { Op o{2, r.RandLc(width), {}, {}, F::Zero()}; r.syms.push_back(o.a); r.ops.push_back(o); continue; }
        case 2: if (left > want && sim::Chance(1, 2)) { r.AddInstance(vu::Elem<F>()); --left; continue; } break;
        default: break;
      }
      Op o{3, r.RandLc(width), r.RandLc(width), {}, F::Zero()};
      if (zero_products) {  // every product is zero and so is every right-hand side
        if (!r.Val(o.a).IsZero() && !r.Val(o.b).IsZero()) o.b.t.push_back({-r.Val(o.b), {1, 0}});
      } else {
        F v = r.Val(o.a) * r.Val(o.b);
        if (sim::Chance(1, 2) && !nowit) {
          F k = sim::Chance(1, 3) ? vu::NonZero<F>() : F::One();
          r.AddWitness(v * k.Inverse().value());
          o.c.t.push_back({k, {3, r.wit.size() - 1}});
        } else {
          o.c = r.RandLc(width);
          o.c.t.push_back({v - r.Val(o.c), {1, 0}});
        }
      }
      r.ops.push_back(o);
      ++r.nc;
    }
    return r;
  }
  void Break() {  // another assignment
    if (!wit.empty() && (inst.size() == 1 || sim::Chance(2, 3))) wit[sim::Below(wit.size())] += vu::NonZero<F>();
    else if (inst.size() > 1) inst[sim::Range(1, inst.size() - 1)] += vu::NonZero<F>();
  }
  void Show() const { sim::Describe("%zu instances, %zu witnesses, %zu combinations, %zu constraints", inst.size(), wit.size(), syms.size(), nc); }
};

Row RowOf(const std::vector<Cell<F>>& cells) {
  Row r;
  for (auto& c : cells) {
    auto it = r.emplace(c.index, F::Zero()).first;
    it->second += c.coefficient;
  }
  for (auto it = r.begin(); it != r.end();) it = it->second.IsZero() ? r.erase(it) : std::next(it);
  return r;
}
F Dot(const Row& r, const std::vector<F>& z) {
  F s = F::Zero();
  for (auto& [i, c] : r) s += c * z[i];
  return s;
}

std::vector<F> Elements(const Domain& d) { return fft::Elements(d.size(), d.group_gen(), F::One()); }
// Lagrange coefficients at |x| from their definition.
std::vector<F> Lagrange(const Domain& d, const F& x) {
  std::vector<F> e = Elements(d), l(d.size()), dens(d.size());
  for (size_t i = 0; i < l.size(); ++i) {
    F num = F::One(), den = F::One();
    for (size_t j = 0; j < l.size(); ++j)
      if (j != i) { num *= x - e[j]; den *= e[i] - e[j]; }
    l[i] = num;
    dens[i] = den;
  }
  dens = fft::Inv(dens);
  for (size_t i = 0; i < l.size(); ++i) l[i] *= dens[i];
  return l;
}
struct Abc { std::vector<F> a, b, c; F t; };
Abc Naive(const Recipe& r, const Domain& d, const F& x) {
  std::vector<F> l = Lagrange(d, x);
  size_t n = r.inst.size() + r.wit.size();
  Abc o{std::vector<F>(n, F::Zero()), std::vector<F>(n, F::Zero()), std::vector<F>(n, F::Zero()), F::One()};
  size_t k = 0;
  for (auto& op : r.ops) {
    if (op.kind != 3) continue;
    for (auto& [i, c] : r.ToRow(op.a)) o.a[i] += l[k] * c;
    for (auto& [i, c] : r.ToRow(op.b)) o.b[i] += l[k] * c;
    for (auto& [i, c] : r.ToRow(op.c)) o.c[i] += l[k] * c;
    ++k;
  }
  for (size_t i = 0; i < r.inst.size(); ++i) o.a[i] += l[k + i];
  for (auto& e : Elements(d)) o.t *= x - e;
  return o;
}

template <typename A, typename J>
A Mul(const A& g, const F& s) {
  J r = J::Zero(), p = g.ToJacobian();
  auto m = s.ToBigInt();
  for (size_t i = sizeof(m.limbs) * 8; i-- > 0;) {
    if (!r.IsZero()) r = r.Double();
    if (m.limbs[i / 64] >> (i % 64) & 1) r = r + p;
  }
  return r.ToAffine();
}
}  // namespace
#endif
