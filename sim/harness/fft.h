// Shared oracle of the transform checks.
#ifndef VERIF_FFT_H_
#define VERIF_FFT_H_
#include "util.h"
namespace fft {
template <typename F>
F Pow(F b, uint64_t e) {
  F r = F::One();
  for (; e; e >>= 1) { if (e & 1) r = r * b; b = b * b; }
  return r;
}
template <typename F>
F Horner(const std::vector<F>& c, const F& x) {
  F r = F::Zero();
  for (size_t i = c.size(); i-- > 0;) r = r * x + c[i];
  return r;
}
// Inverses of non-zero values.
template <typename F>
std::vector<F> Inv(const std::vector<F>& v) {
  std::vector<F> pre(v.size()), out(v.size());
  F p = F::One();
  for (size_t i = 0; i < v.size(); ++i) { pre[i] = p; p = p * v[i]; }
  F q = *p.Inverse();
  for (size_t i = v.size(); i-- > 0;) { out[i] = q * pre[i]; q = q * v[i]; }
  return out;
}
// offset * gen^i
template <typename F>
std::vector<F> Elements(size_t n, const F& gen, const F& off) {
  std::vector<F> v(n);
  F w = off;
  for (size_t i = 0; i < n; ++i) { v[i] = w; w = w * gen; }
  return v;
}
// Are |e| the values of the polynomial with coefficients |c| (fewer than n) on off*<gen>? Small ones are checked value by
// value, large ones by interpolation at a random point, which one wrong value cannot survive.
template <typename F>
void IsTransform(const std::vector<F>& c, const std::vector<F>& e, size_t n, const F& gen, const F& off, const char* what) {
  SIM_CHECK(e.size() == n, "%s: %zu values on a domain of %zu", what, e.size(), n);
  std::vector<F> w = Elements(n, gen, off);
  if (n <= 24) {
    for (size_t i = 0; i < n; ++i) SIM_CHECK(e[i] == Horner(c, w[i]), "%s: value %zu of %zu is wrong", what, i, n);
    return;
  }
  size_t k = sim::Below(n);
  SIM_CHECK(e[k] == Horner(c, w[k]), "%s: value %zu of %zu is wrong", what, k, n);
  F tau, z, offn = Pow(off, n);
  do { tau = vu::Uni<F>(); z = Pow(tau, n) - offn; } while (z.IsZero());
  std::vector<F> d(n);
  for (size_t i = 0; i < n; ++i) d[i] = tau - w[i];
  d = Inv(d);
  F s = F::Zero();
  for (size_t i = 0; i < n; ++i) s = s + e[i] * w[i] * d[i];
  F nn = F::Zero();
  for (size_t b = 64; b-- > 0;) { nn = nn + nn; if (n >> b & 1) nn = nn + F::One(); }
  if (s * z == Horner(c, tau) * nn * offn) return;
  for (size_t i = 0; i < n; ++i) SIM_CHECK(e[i] == Horner(c, w[i]), "%s: value %zu of %zu is wrong", what, i, n);
}
template <typename F>
std::vector<F> Pad(std::vector<F> v, size_t n) { v.resize(n, F::Zero()); return v; }
template <typename F>
std::vector<F> Trim(std::vector<F> v) { while (!v.empty() && v.back().IsZero()) v.pop_back(); return v; }
template <typename F>
void GenHasOrder(const F& g, size_t n, unsigned q) {
  SIM_CHECK(Pow(g, n).IsOne(), "generator of order dividing %zu", n);
  if (n % 2 == 0) SIM_CHECK(!Pow(g, n / 2).IsOne(), "generator of order %zu", n);
  if (q && n % q == 0) SIM_CHECK(!Pow(g, n / q).IsOne(), "generator of order %zu", n);
}
}  // namespace fft
#endif
