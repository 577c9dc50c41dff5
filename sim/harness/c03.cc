// C03: batch curve-point conversions equal point-wise conversion.
#include "util.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/test/sw_curve_config.h"
#include "tachyon/math/geometry/point_conversions.h"

using namespace tachyon;
using namespace tachyon::math;

SIM_WARMUP(curves) {
  bn254::G1Curve::Init();
  bn254::G2Curve::Init();
  test::G1Curve::Init();
}

namespace {
template <typename C>
struct T {
  using B = typename C::BaseField;
  using S = typename C::ScalarField;
  using A = AffinePoint<C>;
  using J = JacobianPoint<C>;
  using P = ProjectivePoint<C>;
  using X = PointXYZZ<C>;
  // small multiples of the generator, by repeated addition
  static A Point() {
    J g = J::Generator(), r = J::Zero();
    uint64_t k = sim::Below(40);
    for (int b = 5; b >= 0; --b) { r = r + r; if (k >> b & 1) r = r + g; }
    return Norm(r);
  }
  static A Norm(const J& j) {
    if (j.z().IsZero()) return A::Zero();
    B zi = *j.z().Inverse();
    return A(j.x() * zi * zi, j.y() * zi * zi * zi);
  }
  static A Norm(const P& p) {
    if (p.z().IsZero()) return A::Zero();
    B zi = *p.z().Inverse();
    return A(p.x() * zi, p.y() * zi);
  }
  static A Norm(const X& p) {
    if (p.zz().IsZero()) return A::Zero();
    return A(p.x() * *p.zz().Inverse(), p.y() * *p.zzz().Inverse());
  }
  static A Norm(const A& a) { return a; }
  static B Z() { return vu::NonZero<B>(); }
  static void Make(const A& a, J* o) { B z = Z(); *o = a.IsZero() ? (sim::Chance(1, 2) ? J::Zero() : J(Z(), Z(), B::Zero())) : J(a.x() * z * z, a.y() * z * z * z, z); }
  static void Make(const A& a, P* o) { B z = Z(); *o = a.IsZero() ? (sim::Chance(1, 2) ? P::Zero() : P(Z(), Z(), B::Zero())) : P(a.x() * z, a.y() * z, z); }
  static void Make(const A& a, X* o) { B z = Z(); *o = a.IsZero() ? (sim::Chance(1, 2) ? X::Zero() : X(Z(), Z(), B::Zero(), B::Zero())) : X(a.x() * z * z, a.y() * z * z * z, z * z, z * z * z); }
  static void Make(const A& a, A* o) { *o = a; }
  static std::vector<A> Points(size_t n) {
    A pool[4] = {Point(), Point(), Point(), A::Zero()};
    unsigned inf = (unsigned)sim::Below(5);  // how frequent infinity is
    std::vector<A> v(n);
    for (auto& x : v) {
      x = sim::Chance(inf, 6) ? A::Zero() : sim::Pick(pool);
      if (sim::Chance(1, 4) && !x.IsZero()) x = A(x.x(), -x.y());
    }
    return v;
  }
  template <typename Q>
  static void Normalize(size_t max) {
    size_t n = vu::Size(max);
    std::vector<A> want = Points(n);
    std::vector<Q> in(n);
    for (size_t i = 0; i < n; ++i) Make(want[i], &in[i]);
    int form = (int)sim::Below(2);
    sim::Describe("normalise n=%zu form=%d point=%zuB", n, form, sizeof(Q));
    A guard = A(B::One(), B::One());
    std::vector<A> buf(n + 2, guard);
    absl::Span<A> out = absl::MakeSpan(buf).subspan(1, n);
    bool ok = form ? Q::BatchNormalize(in, &out) : Q::BatchNormalizeSerial(in, &out);
    SIM_CHECK(ok, "batch normalisation failed");
    for (size_t i = 0; i < n; ++i) {
      SIM_CHECK(out[i].x() == want[i].x() && out[i].y() == want[i].y(), "position %zu of %zu differs from the point-wise result", i, n);
      A one = in[i].ToAffine();
      SIM_CHECK(one.x() == want[i].x() && one.y() == want[i].y(), "single conversion %zu is wrong", i);
    }
    SIM_CHECK(buf[0].x() == guard.x() && buf[0].y() == guard.y() && buf[n + 1].x() == guard.x() && buf[n + 1].y() == guard.y(), "wrote outside the output");
    size_t m = sim::Chance(1, 2) || n == 0 ? n + 1 : n - 1;
    std::vector<A> bad(m, guard);
    SIM_CHECK(!Q::BatchNormalize(in, &bad) && !Q::BatchNormalizeSerial(in, &bad), "mismatched sizes accepted");
    for (auto& x : bad) SIM_CHECK(x.x() == guard.x() && x.y() == guard.y(), "a refused call wrote to the output");
    for (size_t i = 0; i < n; ++i) { sim::OutcomeVal(out[i].x()); sim::OutcomeVal(out[i].y()); }
  }
  template <typename Src, typename Dst>
  static void Convert(size_t max) {
    size_t n = vu::Size(max);
    std::vector<A> want = Points(n);
    std::vector<Src> in(n);
    for (size_t i = 0; i < n; ++i) Make(want[i], &in[i]);
    sim::Describe("convert n=%zu %zuB->%zuB", n, sizeof(Src), sizeof(Dst));
    std::vector<Dst> out(n);
    SIM_CHECK((ConvertPoints(in, &out)), "conversion failed");
    for (size_t i = 0; i < n; ++i) {
      A g = Norm(out[i]);
      SIM_CHECK(g.x() == want[i].x() && g.y() == want[i].y(), "position %zu of %zu converts to a different point", i, n);
      SIM_CHECK((ConvertPoint<Dst>(in[i]) == out[i]), "single conversion %zu differs", i);
    }
    std::vector<Dst> bad(n + 1);
    SIM_CHECK((!ConvertPoints(in, &bad)), "mismatched sizes accepted");
  }
  static void MapScalars(size_t max) {
    size_t n = vu::Size(max);
    A base = sim::Chance(1, 8) ? A::Zero() : Point();
    std::vector<S> s(n);
    std::vector<A> want(n);
    J bj = base.IsZero() ? J::Zero() : J(base.x(), base.y(), B::One());
    for (size_t i = 0; i < n; ++i) {
      uint64_t k = sim::Chance(1, 4) ? sim::Below(3) : sim::Below(64);
      S f = S::Zero();
      J r = J::Zero();
      for (int b = 5; b >= 0; --b) { r = r + r; f = f + f; if (k >> b & 1) { r = r + bj; f = f + S::One(); } }
      if (sim::Chance(1, 5)) { f = -f; r = J(r.x(), -r.y(), r.z()); }
      s[i] = f;
      want[i] = Norm(r);
    }
    sim::Describe("map scalars n=%zu", n);
    std::vector<A> out(n);
    SIM_CHECK(A::BatchMapScalarFieldToPoint(base, s, &out), "mapping failed");
    for (size_t i = 0; i < n; ++i) SIM_CHECK(out[i].x() == want[i].x() && out[i].y() == want[i].y(), "scalar %zu of %zu maps to a different point", i, n);
    std::vector<A> bad(n + 1);
    SIM_CHECK(!A::BatchMapScalarFieldToPoint(base, s, &bad), "mismatched sizes accepted");
    for (size_t i = 0; i < n; ++i) { sim::OutcomeVal(out[i].x()); sim::OutcomeVal(out[i].y()); }
  }
  template <typename Q>
  static void Muls(size_t max) {  // batches of scalar multiples and successive multiples
    size_t n = vu::Size(max);
    std::vector<A> a = Points(n);
    std::vector<Q> in(n);
    for (size_t i = 0; i < n; ++i) Make(a[i], &in[i]);
    std::vector<S> s(n);
    std::vector<uint64_t> k(n);
    for (size_t i = 0; i < n; ++i) {
      k[i] = sim::Below(16);
      s[i] = S::Zero();
      for (uint64_t j = 0; j < k[i]; ++j) s[i] = s[i] + S::One();
    }
    int form = (int)sim::Below(4);
    sim::Describe("multiples form=%d n=%zu point=%zuB", form, n, sizeof(Q));
    auto naive = [](const A& b, uint64_t e) {
      J r = J::Zero(), bj = b.IsZero() ? J::Zero() : J(b.x(), b.y(), B::One());
      for (uint64_t j = 0; j < e; ++j) r = r + bj;
      return Norm(r);
    };
    using R = std::conditional_t<std::is_same_v<Q, A>, J, Q>;
    std::vector<R> out(n);
    if (form == 3) {
      if constexpr (!std::is_same_v<Q, A>) {
        Q g = n ? in[0] : Q::Generator();
        out = Q::GetSuccessiveScalarMuls(n, g);
        SIM_CHECK(out.size() == n, "wrong size");
        for (size_t i = 0; i < n; ++i) SIM_CHECK(Norm(out[i]) == naive(n ? a[0] : A::Zero(), i), "successive multiple %zu of %zu is wrong", i, n);
      }
      return;
    }
    bool ok = form == 0 ? Q::MultiScalarMul(s, in, &out) : form == 1 ? Q::MultiScalarMul(s, n ? in[0] : Q::Generator(), &out) : Q::MultiScalarMul(n ? s[0] : S::One(), in, &out);
    SIM_CHECK(ok == (n > 0), "wrong verdict");
    for (size_t i = 0; i < n; ++i)
      SIM_CHECK(Norm(out[i]) == naive(form == 1 ? a[0] : a[i], form == 2 ? k[0] : k[i]), "multiple %zu of %zu is wrong", i, n);
  }
};
using G1 = T<bn254::G1Curve>;
using G2 = T<bn254::G2Curve>;
using Tiny = T<test::G1Curve>;
}  // namespace

SIM_SCENARIO("C03", normalize, sim::kOmp | sim::kSameOutcome, 4, 8) {
  switch (sim::Below(7)) {
    case 0: G1::Normalize<G1::J>(90); break;
    case 1: G1::Normalize<G1::P>(90); break;
    case 2: G1::Normalize<G1::X>(90); break;
    case 3: Tiny::Normalize<Tiny::J>(300); break;
    case 4: Tiny::Normalize<Tiny::P>(300); break;
    case 5: Tiny::Normalize<Tiny::X>(300); break;
    default: G2::Normalize<G2::J>(30); break;
  }
}
SIM_SCENARIO("C03", convert, sim::kOmp, 2, 3) {
  switch (sim::Below(16)) {
    case 0: G1::Convert<G1::A, G1::P>(40); break;
    case 1: G1::Convert<G1::A, G1::J>(40); break;
    case 2: G1::Convert<G1::A, G1::X>(40); break;
    case 3: G1::Convert<G1::P, G1::A>(40); break;
    case 4: G1::Convert<G1::P, G1::J>(40); break;
    case 5: G1::Convert<G1::P, G1::X>(40); break;
    case 6: G1::Convert<G1::J, G1::A>(40); break;
    case 7: G1::Convert<G1::J, G1::P>(40); break;
    case 8: G1::Convert<G1::J, G1::X>(40); break;
    case 9: G1::Convert<G1::X, G1::A>(40); break;
    case 10: G1::Convert<G1::X, G1::P>(40); break;
    case 11: G1::Convert<G1::X, G1::J>(40); break;
    case 12: Tiny::Convert<Tiny::X, Tiny::A>(80); break;
    case 13: Tiny::Convert<Tiny::X, Tiny::J>(80); break;
    case 14: Tiny::Convert<Tiny::X, Tiny::P>(80); break;
    default: Tiny::Convert<Tiny::J, Tiny::X>(80); break;
  }
}
SIM_SCENARIO("C03", map_scalars, sim::kOmp | sim::kSameOutcome, 2, 6) {
  switch (sim::Below(2)) {
    case 0: G1::MapScalars(20); break;
    default: Tiny::MapScalars(300); break;
  }
}
SIM_SCENARIO("C03", multiples, sim::kOmp, 2, 6) {
  switch (sim::Below(6)) {
    case 0: G1::Muls<G1::J>(60); break;
    case 1: G1::Muls<G1::P>(60); break;
    case 2: G1::Muls<G1::X>(60); break;
    case 3: G1::Muls<G1::A>(60); break;
    case 4: Tiny::Muls<Tiny::J>(200); break;
    default: Tiny::Muls<Tiny::X>(200); break;
  }
}
