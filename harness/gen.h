// Series generators shared by the drivers.
#pragma once
#include "vf.h"
#include <string>
namespace gen {
using vf::Rng;
// Random stationary AR coefficients from partial autocorrelations in (-lim, lim)
inline Vec statcoef(Rng &r, int p, double lim) {
  Vec a(p), w(p);
  for (int i = 0; i < p; i++) {
    double k = r.range(-lim, lim);
    w[i] = k;
    for (int j = 0; j < i; j++) w[j] = a[j] - k * a[i - 1 - j];
    for (int j = 0; j <= i; j++) a[j] = w[j];
  }
  return a;
}
// ARMA with x_t = sum phi x + e_t + sum th e (plus sign), burn-in 200
inline Vec arma(Rng &r, const Vec &phi, const Vec &th, int n, double sd = 1.0) {
  int b = 200; Vec x(n + b, 0.0), e(n + b);
  for (int t = 0; t < n + b; t++) {
    e[t] = sd * r.norm(); double v = e[t];
    for (size_t i = 0; i < phi.size(); i++) if (t > (int)i) v += phi[i] * x[t - 1 - i];
    for (size_t i = 0; i < th.size(); i++) if (t > (int)i) v += th[i] * e[t - 1 - i];
    x[t] = v;
  }
  return Vec(x.begin() + b, x.end());
}
// seasonal expansion of (1 - sum a_i B^i)(1 - sum A_j B^{sj}) -> AR coefficients, subtract sign convention
inline Vec expand(const Vec &a, const Vec &A, int s) {
  std::vector<double> p(1 + a.size() + s * A.size(), 0.0), q(1 + a.size(), 0.0);
  q[0] = 1; for (size_t i = 0; i < a.size(); i++) q[i + 1] = -a[i];
  for (size_t i = 0; i < q.size(); i++) { p[i] += q[i]; for (size_t j = 0; j < A.size(); j++) p[i + s * (j + 1)] -= q[i] * A[j]; }
  Vec o(p.size() - 1); for (size_t i = 1; i < p.size(); i++) o[i - 1] = -p[i];
  return o;
}
inline Vec integrate(const Vec &w, int lag, double start) {
  Vec x(w.size());
  for (size_t t = 0; t < w.size(); t++) x[t] = w[t] + (t >= (size_t)lag ? x[t - lag] : start);
  return x;
}
// A generic, varied, non-constant finite series of length n; s = seasonal period to plant (0 = none).
inline Vec series(Rng &r, int n, int s = 0, std::string *desc = nullptr) {
  int kind = r.irange(0, 9); Vec x; const char *nm = "";
  switch (kind) {
    case 0: x = arma(r, {}, {}, n); nm = "noise"; break;
    case 1: case 2: x = arma(r, statcoef(r, r.irange(1, 3), 0.85), {}, n); nm = "ar"; break;
    case 3: x = arma(r, {}, statcoef(r, r.irange(1, 2), 0.8), n); nm = "ma"; break;
    case 4: case 5: x = arma(r, statcoef(r, r.irange(1, 2), 0.8), statcoef(r, r.irange(1, 2), 0.7), n); nm = "arma"; break;
    case 6: x = integrate(arma(r, statcoef(r, 1, 0.6), {}, n), 1, 0.0); nm = "rw"; break;
    case 7: { x = arma(r, statcoef(r, 1, 0.5), {}, n); double b = r.range(-0.3, 0.3); for (int i = 0; i < n; i++) x[i] += b * i; nm = "trend"; break; }
    case 8: { x = arma(r, statcoef(r, 1, 0.5), {}, n); for (int i = 0; i < n; i++) if (r.chance(0.04)) x[i] += 6 * r.norm(); nm = "outlier"; break; }
    default: { x = arma(r, statcoef(r, 1, 0.5), {}, n); double sh = r.range(1, 6); for (int i = n / 2; i < n; i++) x[i] += sh; nm = "shift"; }
  }
  if (s > 1 && r.chance(0.8)) { Vec m(s); for (auto &v : m) v = r.range(0.5, 3) * r.norm(); for (int i = 0; i < n; i++) x[i] += m[i % s]; }
  if (desc) *desc = nm;
  return x;
}
inline void affine(Vec &x, double a, double b) { for (auto &v : x) v = a + b * v; }
}  // namespace gen
