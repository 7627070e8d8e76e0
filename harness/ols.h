// Long-double least squares by Householder QR with column scaling.
#pragma once
#include "vf.h"
namespace ols {
struct Fit { bool ok = false; int n = 0, p = 0; LVec b, se, res; LD rss = 0, yy = 0, s2 = 0, cond = 1, ratio = 1; std::vector<LVec> cov; };
// cols: p regressors of length n
inline Fit fit(const std::vector<LVec> &cols, const LVec &y) {
  Fit f; int n = y.size(), p = cols.size(); f.n = n; f.p = p; for (LD v : y) f.yy += v * v;
  if (n < p) return f;
  std::vector<LVec> A = cols; LVec sc(p), z = y;
  for (int j = 0; j < p; j++) { LD s = 0; for (LD v : A[j]) s += v * v; s = sqrtl(s); if (!(s > 0)) return f; sc[j] = s; for (LD &v : A[j]) v /= s; }
  if (p) f.ratio = *std::max_element(sc.begin(), sc.end()) / *std::min_element(sc.begin(), sc.end());
  std::vector<LVec> R(p, LVec(p, 0));
  for (int k = 0; k < p; k++) {
    LD s = 0; for (int i = k; i < n; i++) s += A[k][i] * A[k][i]; s = sqrtl(s); if (!(s > 0)) return f;
    if (A[k][k] > 0) s = -s; LVec v(n, 0); for (int i = k; i < n; i++) v[i] = A[k][i]; v[k] -= s; LD vv = 0; for (int i = k; i < n; i++) vv += v[i] * v[i];
    if (vv > 0) { for (int j = k; j < p; j++) { LD d = 0; for (int i = k; i < n; i++) d += v[i] * A[j][i]; d = 2 * d / vv; for (int i = k; i < n; i++) A[j][i] -= d * v[i]; }
      LD d = 0; for (int i = k; i < n; i++) d += v[i] * z[i]; d = 2 * d / vv; for (int i = k; i < n; i++) z[i] -= d * v[i]; }
    for (int j = k; j < p; j++) R[k][j] = A[j][k];
  }
  LD mx = 0, mn = 1e300L; for (int k = 0; k < p; k++) { mx = std::max(mx, fabsl(R[k][k])); mn = std::min(mn, fabsl(R[k][k])); }
  if (p && !(mn > 1e-15L * mx)) return f;
  // inverse of R
  std::vector<LVec> Ri(p, LVec(p, 0)); LD ni = 0;
  for (int j = 0; j < p; j++) { for (int i = j; i >= 0; i--) { LD s = i == j ? 1 : 0; for (int k = i + 1; k <= j; k++) s -= R[i][k] * Ri[k][j]; Ri[i][j] = s / R[i][i]; } }
  for (auto &r : Ri) for (LD v : r) ni += v * v; f.cond = p ? std::max<LD>(1, sqrtl(ni)) : 1;
  f.b.assign(p, 0); for (int i = 0; i < p; i++) { LD s = 0; for (int j = i; j < p; j++) s += Ri[i][j] * z[j]; f.b[i] = s / sc[i]; }
  f.res = y; for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) f.res[i] -= f.b[j] * cols[j][i];
  for (LD v : f.res) f.rss += v * v;
  f.s2 = n > p ? f.rss / (n - p) : 0; f.cov.assign(p, LVec(p, 0)); f.se.assign(p, 0);
  for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { LD s = 0; for (int k = 0; k < p; k++) s += Ri[i][k] * Ri[j][k]; f.cov[i][j] = s * f.s2 / sc[i] / sc[j]; }
  for (int i = 0; i < p; i++) f.se[i] = sqrtl(f.cov[i][i]);
  f.ok = true; return f;
}
inline LVec ones(int n) { return LVec(n, 1); }
// error a normal-equations solver in double may make in scale-free quantities of this fit
inline double amp(const Fit &f, double unit = 1e-14) { double c = (double)f.cond, r = f.rss > 0 ? std::sqrt((double)(f.yy / f.rss) * f.n) : 1e30; return unit * c * c * (double)f.ratio * (1 + r) * (f.p + 1); }
}  // namespace ols
