// C13: rank-1 constraint systems, their quadratic arithmetic program and Groth16.
#include <thread>
#include "r1cs.h"
#include "tachyon/base/openmp_util.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"

namespace {
SIM_WARMUP(r1cs) { Curve::Init(); LOG(ERROR) << "warm"; VLOG(1) << "warm"; }

SIM_SCENARIO("C13", constraint_systems, sim::kOmp, 2, 1) {
  bool zp = sim::Chance(1, 8);
  Recipe r = Recipe::Random(40, zp);
  if (sim::Chance(1, 3)) r.Break();
  r.Show();
  bool sat = r.Sat(), weight = sim::Chance(1, 2);
  ConstraintSystem<F> cs, setup;
  cs.set_optimization_goal(weight ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints);
  setup.set_optimization_goal(cs.optimization_goal());
  setup.set_mode(SynthesisMode::Setup());
  r.Synthesize(setup);
  r.Synthesize(cs);
  SIM_CHECK(cs.num_instance_variables() == r.inst.size() && cs.num_witness_variables() == r.wit.size() && cs.num_constraints() == r.nc, "constraint system: wrong counts");
  vu::Same(cs.instance_assignments(), r.inst, "instance assignments");
  vu::Same(cs.witness_assignments(), r.wit, "witness assignments");
  bool early = sim::Chance(1, 2);
  if (early) {
    SIM_CHECK(cs.IsSatisfied() == sat, "IsSatisfied() is %d for an assignment that is %ssatisfying", !sat, sat ? "" : "not ");
    for (size_t i = 0; i < r.sv_.size(); ++i) SIM_CHECK(cs.GetAssignedValue(r.sv_[i]) == r.Val(r.syms[i]), "assigned value of a linear combination is wrong");
    for (size_t i = 0; i < r.iv_.size(); ++i) SIM_CHECK(cs.GetAssignedValue(r.iv_[i]) == r.inst[i], "assigned value of an instance is wrong");
    for (size_t i = 0; i < r.wv_.size(); ++i) SIM_CHECK(cs.GetAssignedValue(r.wv_[i]) == r.wit[i], "assigned value of a witness is wrong");
  }
  cs.Finalize();
  setup.Finalize();
  SIM_CHECK(!setup.IsSatisfied(), "a system without assignment claims to be satisfied");
  SIM_CHECK(cs.IsSatisfied() == sat, "after Finalize, IsSatisfied() is %d for an assignment that is %ssatisfying", !sat, sat ? "" : "not ");
  auto m = cs.ToMatrices(), ms = setup.ToMatrices();
  SIM_REQUIRE(m.has_value() && ms.has_value());
  SIM_CHECK(m->a == ms->a && m->b == ms->b && m->c == ms->c, "setup and proving build different matrices");
  SIM_CHECK(m->num_constraints == cs.num_constraints() && ms->num_constraints == m->num_constraints && m->num_instance_variables == r.inst.size() && m->num_witness_variables == cs.num_witness_variables() && setup.num_witness_variables() == cs.num_witness_variables(), "matrices: wrong counts");
  size_t nw = cs.num_witness_variables();
  SIM_CHECK(cs.witness_assignments().size() == nw, "a witness has no assignment");
  SIM_CHECK(m->num_constraints >= r.nc && nw >= r.wit.size() && m->num_constraints - r.nc == nw - r.wit.size(), "outlining adds constraints without witnesses");
  if (!weight) SIM_CHECK(nw == r.wit.size(), "inlining adds witnesses");
  sim::Count(weight ? "outlined systems" : "inlined systems");
  if (nw > r.wit.size()) sim::Count("systems with outlined combinations");
  std::vector<F> z = cs.instance_assignments();
  z.insert(z.end(), cs.witness_assignments().begin(), cs.witness_assignments().end());
  size_t base = r.inst.size() + r.wit.size();
  // The definitions of the witnesses that outlining added, in terms of the original variables.
  std::vector<Row> def(z.size());
  std::vector<bool> has(z.size());
  auto subst = [&](const Row& row) {
    Row out;
    for (auto& [i, c] : row) {
      if (i < base) { out.emplace(i, F::Zero()).first->second += c; continue; }
      SIM_CHECK(has[i], "a row uses an outlined witness before its definition");
      for (auto& [j, d] : def[i]) out.emplace(j, F::Zero()).first->second += c * d;
    }
    for (auto it = out.begin(); it != out.end();) it = it->second.IsZero() ? out.erase(it) : std::next(it);
    return out;
  };
  auto indexed = [&](const std::vector<Cell<F>>& row) { for (auto& c : row) SIM_CHECK(c.index < z.size(), "a row has column %zu of %zu", c.index, z.size()); };
  size_t na = 0, nb = 0, ncz = 0;
  for (size_t i = 0; i < m->num_constraints; ++i) {
    indexed(m->a[i]); indexed(m->b[i]); indexed(m->c[i]);
    na += m->a[i].size(); nb += m->b[i].size(); ncz += m->c[i].size();
  }
  SIM_CHECK(na == m->a_num_non_zero && nb == m->b_num_non_zero && ncz == m->c_num_non_zero, "wrong number of non-zero cells");
  for (size_t i = r.nc; i < m->num_constraints; ++i) {
    Row b = RowOf(m->b[i]), c = RowOf(m->c[i]);
    SIM_REQUIRE(b.size() == 1 && b.begin()->first == 0 && b.begin()->second.IsOne() && c.size() == 1 && c.begin()->second.IsOne());
    size_t w = c.begin()->first;
    SIM_CHECK(w >= base && !has[w], "an outlining constraint does not define a new witness");
    def[w] = subst(RowOf(m->a[i]));
    has[w] = true;
    SIM_CHECK(z[w] == Dot(def[w], z), "an outlined witness has a wrong assignment");
  }
  size_t k = 0;
  for (auto& o : r.ops) {
    if (o.kind != 3) continue;
    SIM_CHECK(subst(RowOf(m->a[k])) == r.ToRow(o.a), "constraint %zu of %zu: wrong row of A", k, r.nc);
    SIM_CHECK(subst(RowOf(m->b[k])) == r.ToRow(o.b), "constraint %zu of %zu: wrong row of B", k, r.nc);
    SIM_CHECK(subst(RowOf(m->c[k])) == r.ToRow(o.c), "constraint %zu of %zu: wrong row of C", k, r.nc);
    ++k;
  }
}

SIM_SCENARIO("C13", qap_reduction, sim::kOmp | sim::kSameOutcome, 3, 2) {
  Recipe r = Recipe::Random(sim::Pick<size_t>({1, 2, 4, 8, 16, 33, 64}), sim::Chance(1, 6));
  if (sim::Chance(1, 4)) r.Break();
  r.Show();
  ConstraintSystem<F> cs;
  r.Synthesize(cs);
  cs.Finalize();
  size_t need = cs.num_constraints() + cs.num_instance_variables();
  auto d = Domain::Create(std::min<size_t>(kMax + 1, sim::Chance(1, 5) ? need * 2 : need));
  F x;
  do { x = vu::Uni<F>(); } while (d->EvaluateVanishingPolynomial(x).IsZero());
  Abc want = Naive(r, *d, x);
  auto im = QAP::InstanceMap(d.get(), cs, x);
  vu::Same(im.a, want.a, "QAP a(x)");
  vu::Same(im.b, want.b, "QAP b(x)");
  vu::Same(im.c, want.c, "QAP c(x)");
  SIM_CHECK(im.t_x == want.t, "QAP t(x) is wrong");
  SIM_CHECK(im.num_qap_variables + 1 == want.a.size() && im.num_constraints == r.nc && im.num_instance_variables == r.inst.size() && im.num_witness_variables == r.wit.size(), "QAP counts are wrong");
  auto wm = QAP::WitnessMap(d.get(), cs);
  vu::Same(wm.full_assignments, r.Full(), "full assignment");
  std::vector<F> z = r.Full();
  F a = F::Zero(), b = F::Zero(), c = F::Zero();
  for (size_t i = 0; i < z.size(); ++i) { a += z[i] * want.a[i]; b += z[i] * want.b[i]; c += z[i] * want.c[i]; }
  bool holds = fft::Horner(wm.h, x) * want.t == a * b - c;
  SIM_CHECK(holds == r.Sat(), "h(x) t(x) %s a(x) b(x) - c(x) for an assignment that is %ssatisfying", holds ? "equals" : "differs from", r.Sat() ? "" : "not ");
  if (r.Sat()) SIM_CHECK(wm.h.size() <= d->size() && (wm.h.size() < d->size() || wm.h.back().IsZero()), "the quotient has too high a degree");
  sim::Count(r.Sat() ? "satisfied systems" : "unsatisfied systems");
  F di = vu::Elem<F>();
  auto hq = QAP::ComputeHQuery(d.get(), im.t_x, x, di);
  SIM_CHECK(hq.size() + 1 == d->size(), "wrong number of h queries");
  F p = want.t * di;
  for (size_t i = 0; i < hq.size(); ++i, p *= x) SIM_CHECK(hq[i] == p, "h query %zu of %zu is wrong", i, hq.size());
  vu::OutcomeVec(im.a); vu::OutcomeVec(wm.h); vu::OutcomeVec(hq);
}

SIM_SCENARIO("C13", groth16_proofs, sim::kOmp, 5, 2) {
  Recipe r = Recipe::Random(sim::Pick<size_t>({1, 2, 4, 8, 8, 16, 24}), sim::Chance(1, 8));
  r.Show();
  F al = vu::Uni<F>(), be = vu::Uni<F>(), ga = vu::Uni<F>(), de = vu::Uni<F>();  // non-zero but for a negligible chance
  G1 g1 = Mul<G1, J1>(G1::Generator(), vu::NonZero<F>());
  G2 g2 = Mul<G2, J2>(G2::Generator(), vu::NonZero<F>());
  groth16::ToxicWaste<Curve> toxic(al, be, ga, de, F::Zero(), g1, g2);
  groth16::ProvingKey<Curve> pk;
  bool ok = pk.Load<kMax, QAP>(toxic, r);
  SIM_REQUIRE(ok);
  F x = toxic.x();
  auto d = Domain::Create(r.nc + r.inst.size());
  Abc q = Naive(r, *d, x);
  SIM_CHECK(!q.t.IsZero(), "the secret point lies in the domain");
  F gi = ga.Inverse().value(), di = de.Inverse().value();
  auto m1 = [&](const F& s) { return Mul<G1, J1>(g1, s); };
  auto m2 = [&](const F& s) { return Mul<G2, J2>(g2, s); };
  const auto& vk = pk.verifying_key();
  SIM_CHECK(vk.alpha_g1() == m1(al) && vk.beta_g2() == m2(be) && vk.gamma_g2() == m2(ga) && vk.delta_g2() == m2(de) && pk.beta_g1() == m1(be) && pk.delta_g1() == m1(de), "key: a fixed element is wrong");
  size_t n = q.a.size(), ni = r.inst.size();
  SIM_CHECK(vk.l_g1_query().size() == ni && pk.a_g1_query().size() == n && pk.b_g1_query().size() == n && pk.b_g2_query().size() == n && pk.l_g1_query().size() == n - ni && pk.h_g1_query().size() + 1 == d->size(), "key: a query has the wrong size");
  for (size_t i = 0; i < n; ++i) {
    SIM_CHECK(pk.a_g1_query()[i] == m1(q.a[i]), "key: A query %zu of %zu is wrong", i, n);
    SIM_CHECK(pk.b_g1_query()[i] == m1(q.b[i]) && pk.b_g2_query()[i] == m2(q.b[i]), "key: B query %zu of %zu is wrong", i, n);
    F l = be * q.a[i] + al * q.b[i] + q.c[i];
    if (i < ni) SIM_CHECK(vk.l_g1_query()[i] == m1(l * gi), "key: instance query %zu is wrong", i);
    else SIM_CHECK(pk.l_g1_query()[i - ni] == m1(l * di), "key: witness query %zu is wrong", i - ni);
  }
  F p = q.t * di;
  for (size_t i = 0; i < pk.h_g1_query().size(); ++i, p *= x) SIM_CHECK(pk.h_g1_query()[i] == m1(p), "key: h query %zu is wrong", i);
  if (sim::Chance(1, 5)) {  // the key of the verifier alone
    groth16::ToxicWaste<Curve> t2(al, be, ga, de, F::Zero(), g1, g2);
    groth16::VerifyingKey<Curve> v2;
    ok = v2.Load<kMax, QAP>(t2, r);
    SIM_REQUIRE(ok);
    Abc q2 = Naive(r, *d, t2.x());
    SIM_CHECK(v2.l_g1_query().size() == ni, "verifying key: wrong size");
    for (size_t i = 0; i < ni; ++i) SIM_CHECK(v2.l_g1_query()[i] == m1((be * q2.a[i] + al * q2.b[i] + q2.c[i]) * gi), "verifying key: instance query %zu is wrong", i);
  }
  bool unsat = false;
  if (sim::Chance(1, 6)) { r.Break(); unsat = !r.Sat(); }
  // The proof with chosen randomness against its definition.
  F rr = vu::Elem<F>(), ss = vu::Elem<F>();
  int form = (int)sim::Below(3);
  if (form == 2) rr = ss = F::Zero();
  groth16::Proof<Curve> proof = form == 0 ? groth16::CreateProofWithReductionZK<kMax, QAP>(r, pk)
                              : form == 1 ? groth16::CreateProofWithReduction<kMax, QAP>(r, pk, rr, ss)
                                          : groth16::CreateProofWithReductionNoZK<kMax, QAP>(r, pk);
  if (form && !unsat) {
    std::vector<F> z = r.Full();
    F a = al + rr * de, b = be + ss * de, az = F::Zero(), bz = F::Zero(), cz = F::Zero(), c = F::Zero();
    for (size_t i = 0; i < n; ++i) {
      az += z[i] * q.a[i]; bz += z[i] * q.b[i]; cz += z[i] * q.c[i];
      if (i >= ni) c += z[i] * (be * q.a[i] + al * q.b[i] + q.c[i]) * di;
    }
    a += az; b += bz;
    c += (az * bz - cz) * di + ss * a + rr * b - rr * ss * de;
    SIM_CHECK(proof.a() == m1(a), "proof: A is wrong");
    SIM_CHECK(proof.b() == m2(b), "proof: B is wrong");
    SIM_CHECK(proof.c() == m1(c), "proof: C is wrong");
    sim::Count("proofs compared with their definition");
  }
  bool moved = sim::Chance(1, 2);
  groth16::PreparedVerifyingKey<Curve> pvk = moved ? std::move(pk).TakeVerifyingKey().ToPreparedVerifyingKey() : pk.verifying_key().ToPreparedVerifyingKey();
  std::vector<F> pub = r.Public();
  if (unsat) {
    SIM_CHECK(!groth16::VerifyProof(pvk, proof, pub), "a proof for an assignment that does not satisfy the constraints is accepted");
    sim::Count("unsatisfied");
    return;
  }
  int rerand = (int)sim::Below(3);
  for (int i = 0; i < rerand; ++i) {
    groth16::Proof<Curve> o = proof;
    proof = groth16::ReRandomizeProof(pvk.verifying_key(), proof);
    groth16::Proof<Curve> other = groth16::ReRandomizeProof(pvk.verifying_key(), o);
    SIM_CHECK(o.a().IsZero() || o.b().IsZero() || proof.a() != other.a(), "the randomness of a re-randomised proof is not fresh");
    SIM_CHECK((o.a().IsZero() || o.a() != proof.a()) && (o.b().IsZero() || o.b() != proof.b()), "re-randomising changes nothing");
  }
  if (rerand) sim::Count("re-randomised");
  SIM_CHECK(groth16::VerifyProof(pvk, proof, pub), "an honest proof (form %d, re-randomised %d times) is refused", form, rerand);
  if (proof.a().IsZero() || proof.b().IsZero()) return;  // then e(A, B) binds nothing of the other element
  int how = (int)sim::Below(8);
  G1 pa = proof.a(), pc = proof.c();
  G2 pb = proof.b();
  F k = vu::NonZero<F>();
  auto add1 = [&](const G1& o) { return (o.ToJacobian() + m1(k).ToJacobian()).ToAffine(); };
  auto add2 = [&](const G2& o) { return (o.ToJacobian() + m2(k).ToJacobian()).ToAffine(); };
  switch (how) {
    case 0: pa = add1(pa); break;
    case 1: pb = add2(pb); break;
    case 2: pc = add1(pc); break;
    case 3: pa = -pa; break;
    case 4: if (pa == pc) return; std::swap(pa, pc); break;
    case 5: pc = G1::Zero(); if (proof.c() == pc) return; break;
    case 6: if (pub.empty()) return; pub[sim::Below(pub.size())] += k; break;
    default:
      if (pub.size() < 2) return;
      { size_t i = sim::Below(pub.size()), j = sim::Below(pub.size()); if (pub[i] == pub[j]) return; std::swap(pub[i], pub[j]); }
  }
  groth16::Proof<Curve> bad(pa, pb, pc);
  SIM_CHECK(!groth16::VerifyProof(pvk, bad, pub), "a changed proof or public input (%d) is accepted", how);
  sim::Count("altered");
  if (sim::Chance(1, 4)) {  // another number of public inputs
    pub = r.Public();
    if (sim::Chance(1, 2) || pub.empty()) pub.push_back(vu::Elem<F>()); else pub.pop_back();
    SIM_CHECK(!groth16::VerifyProof(pvk, proof, pub), "a wrong number of public inputs is accepted");
  }
}
}  // namespace
