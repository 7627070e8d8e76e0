// Independent long-double ARMA machinery: theoretical autocovariances, the innovations algorithm for
// ARMA processes (Brockwell & Davis 5.3), exact/conditional objectives, difference-equation forecasts.
#pragma once
#include "vf.h"
namespace ora {
inline bool solve(std::vector<LVec> A, LVec b, LVec &x) {
  int n = (int)b.size();
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
    if (!(fabsl(A[p][k]) > 1e-300L)) return false;
    std::swap(A[k], A[p]); std::swap(b[k], b[p]);
    for (int i = k + 1; i < n; i++) { LD f = A[i][k] / A[k][k]; if (f == 0) continue; for (int j = k; j < n; j++) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; }
  }
  x.assign(n, 0);
  for (int k = n - 1; k >= 0; k--) { LD s = b[k]; for (int j = k + 1; j < n; j++) s -= A[k][j] * x[j]; x[k] = s / A[k][k]; }
  return true;
}
// psi weights, th with plus sign, th[0] is theta_1
inline LVec psi(const LVec &phi, const LVec &th, int n) {
  LVec w(n + 1, 0); w[0] = 1;
  for (int j = 1; j <= n; j++) { LD v = j <= (int)th.size() ? th[j - 1] : 0; for (int i = 1; i <= (int)phi.size() && i <= j; i++) v += phi[i - 1] * w[j - i]; w[j] = v; }
  return w;
}
// autocovariances gamma(0..lag) for unit innovation variance
inline bool acov(const LVec &phi, const LVec &th, int lag, LVec &g) {
  int p = phi.size(), q = th.size(); LVec w = psi(phi, th, q);
  auto T = [&](int j) -> LD { return j == 0 ? 1.0L : (j <= q ? th[j - 1] : 0.0L); };
  LVec rhs(std::max(p, q) + 1, 0);
  for (int k = 0; k <= q; k++) { LD s = 0; for (int j = k; j <= q; j++) s += T(j) * w[j - k]; rhs[k] = s; }
  std::vector<LVec> A(p + 1, LVec(p + 1, 0)); LVec b(p + 1);
  for (int k = 0; k <= p; k++) { A[k][k] += 1; for (int i = 1; i <= p; i++) A[k][std::abs(k - i)] -= phi[i - 1]; b[k] = k <= q ? rhs[k] : 0; }
  LVec x; if (!solve(A, b, x)) return false;
  g.assign(lag + 1, 0);
  for (int k = 0; k <= lag; k++) {
    if (k <= p) { g[k] = x[k]; continue; }
    LD s = k <= q ? rhs[k] : 0; for (int i = 1; i <= p; i++) s += phi[i - 1] * g[k - i]; g[k] = s;
  }
  return true;
}
struct Filt { bool ok = false; LVec u, v; LD ssq = 0, sumlog = 0; LD obj = 0; std::vector<LVec> th; int m = 0; LVec g; };
// exact innovations filter of w (unit innovation variance). obj = 0.5*(sumlog/N + log(ssq/N))
inline Filt filter(const LVec &phi, const LVec &th, const LVec &w, int extra = 0, bool keep = false) {
  Filt f; int p = phi.size(), q = th.size(), N = w.size(), m = std::max(std::max(p, q), 1), NN = N + extra; f.m = m;
  if (!acov(phi, th, 2 * m + 1, f.g)) return f;
  const LVec &g = f.g;
  auto T = [&](int j) -> LD { return j == 0 ? 1.0L : (j <= q ? th[j - 1] : 0.0L); };
  auto kap = [&](int i, int j) -> LD {  // 1-based
    if (i < j) std::swap(i, j);          // i >= j
    if (i <= m) return g[i - j];
    if (j <= m && i <= 2 * m) { LD s = g[i - j]; for (int r = 1; r <= p; r++) s -= phi[r - 1] * g[std::abs(r - (i - j))]; return s; }
    if (j > m) { LD s = 0; for (int r = 0; r + (i - j) <= q; r++) s += T(r) * T(r + i - j); return s; }
    return 0;
  };
  // theta_{n,j}; band of width q once n >= m
  std::vector<LVec> &C = f.th; C.assign(NN + 1, LVec());
  LVec v(NN + 1, 0); v[0] = kap(1, 1);
  if (!(v[0] > 0)) return f;
  f.u.assign(N, 0); f.v.assign(N, 0);
  LVec W(N);  // transformed differences handled through prediction formula
  for (int n = 0; n < NN; n++) {
    if (n > 0) {
      int width = n < m ? n : std::min(n, q); // theta_{n,1..width}
      LVec c(width + 1, 0);
      for (int k = n - width; k < n; k++) {  // theta_{n,n-k}
        LD s = kap(n + 1, k + 1);
        for (int j = std::max(0, n - width); j < k; j++) { int a = k - j; if (a < (int)C[k].size()) s -= C[k][a] * c[n - j] * v[j]; }
        c[n - k] = s / v[k];
      }
      LD s = kap(n + 1, n + 1); for (int j = n - width; j < n; j++) s -= c[n - j] * c[n - j] * v[j];
      v[n] = s; C[n] = c;
      if (!(v[n] > 0)) return f;
    }
    if (n >= N) continue;
    LD pred = 0;
    if (n < m) { for (int j = 1; j < (int)C[n].size(); j++) pred += C[n][j] * f.u[n - j]; }
    else { for (int i = 1; i <= p; i++) pred += phi[i - 1] * w[n - i]; for (int j = 1; j < (int)C[n].size(); j++) pred += C[n][j] * f.u[n - j]; }
    f.u[n] = w[n] - pred; f.v[n] = v[n];
    f.ssq += f.u[n] * f.u[n] / v[n]; f.sumlog += logl(v[n]);
  }
  if (!keep) C.clear(); else { f.v.assign(v.begin(), v.end()); }
  f.obj = 0.5L * (f.sumlog / N + logl(f.ssq / N));
  f.ok = std::isfinite((double)f.obj);
  return f;
}
// conditional sum of squares (first nc residuals zero)
struct Css { LD obj, ssq; int n; LVec e; };
inline Css css(const LVec &phi, const LVec &th, const LVec &w, int nc) {
  int N = w.size(); Css r; r.e.assign(N, 0); r.ssq = 0; r.n = 0;
  for (int t = nc; t < N; t++) {
    LD e = w[t]; for (int i = 1; i <= (int)phi.size() && t - i >= 0; i++) e -= phi[i - 1] * w[t - i];
    for (int j = 1; j <= (int)th.size() && t - j >= nc; j++) e -= th[j - 1] * r.e[t - j];
    r.e[t] = e; r.ssq += e * e; r.n++;
  }
  r.obj = 0.5L * logl(r.ssq / r.n);
  return r;
}
// h-step best linear predictors of the stationary series w; err[h][k] = weight of innovation N+k in the
// error of the h-step forecast, vv[k] = its variance factor (unit innovation variance)
inline bool predict(const LVec &phi, const LVec &th, const LVec &w, int H, LVec &pred, std::vector<LVec> *err = nullptr, LVec *vv = nullptr) {
  int N = w.size(); Filt f = filter(phi, th, w, H, true); if (!f.ok) return false;
  int p = phi.size(), m = f.m; LVec x(w); pred.assign(H, 0);
  if (err) err->assign(H, LVec(H, 0));
  if (vv) vv->assign(f.v.begin() + N, f.v.begin() + N + H);
  for (int h = 1; h <= H; h++) {
    int n = N + h - 1; LD s = 0;
    if (n >= m) for (int i = 1; i <= p; i++) s += phi[i - 1] * x[n - i];
    for (int j = h; j < (int)f.th[n].size(); j++) if (n - j < N && n - j >= 0) s += f.th[n][j] * f.u[n - j];
    x.push_back(s); pred[h - 1] = s;
    if (err) {
      LVec &e = (*err)[h - 1]; e[h - 1] = 1;
      if (n >= m) for (int i = 1; i <= p && i < h; i++) for (int k = 0; k < h - i; k++) e[k] += phi[i - 1] * (*err)[h - 1 - i][k];
      for (int j = 1; j < h && j < (int)f.th[n].size(); j++) e[h - 1 - j] += f.th[n][j];
    }
  }
  return true;
}
inline LVec polymul(const LVec &a, const LVec &b) { LVec c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j]; return c; }
// (1-B)^d (1-B^s)^D coefficients
inline LVec diffpoly(int d, int D, int s) { LVec r{1}; for (int i = 0; i < d; i++) r = polymul(r, LVec{1, -1}); for (int i = 0; i < D; i++) { LVec k(s + 1, 0); k[0] = 1; k[s] = -1; r = polymul(r, k); } return r; }
inline LVec apply(const LVec &poly, const LVec &x) { int k = poly.size() - 1; LVec r; for (size_t t = k; t < x.size(); t++) { LD s = 0; for (int i = 0; i <= k; i++) s += poly[i] * x[t - i]; r.push_back(s); } return r; }
inline LVec L(const Vec &v) { return LVec(v.begin(), v.end()); }
inline LVec L(const double *p, int n) { return LVec(p, p + n); }
// expand seasonal polynomial with subtract convention: (1-sum a B)(1 - sum A B^s) = 1 - sum o B
inline LVec expand(const LVec &a, const LVec &A, int s) {
  LVec x(a.size() + 1), y(A.size() * s + 1, 0); x[0] = y[0] = 1;
  for (size_t i = 0; i < a.size(); i++) x[i + 1] = -a[i];
  for (size_t j = 0; j < A.size(); j++) y[(j + 1) * s] = -A[j];
  LVec z = polymul(x, y), o(z.size() - 1); for (size_t i = 1; i < z.size(); i++) o[i - 1] = -z[i];
  return o;
}
inline LVec neg(LVec v) { for (auto &x : v) x = -x; return v; }
// spectral test: all roots of 1 - sum a_i z^i outside unit circle <=> reflection coefficients in (-1,1) (Schur-Cohn / step-down)
inline bool stationary(LVec a, LD *margin = nullptr) {
  LD mg = 1;
  for (int n = a.size(); n >= 1; n--) {
    LD k = a[n - 1]; if (margin) mg = std::min(mg, 1 - fabsl(k));
    if (!(fabsl(k) < 1)) { if (margin) *margin = 1 - fabsl(k); return false; }
    LVec b(n - 1); for (int i = 0; i < n - 1; i++) b[i] = (a[i] + k * a[n - 2 - i]) / (1 - k * k); a = b;
  }
  if (margin) *margin = mg;
  return true;
}
}  // namespace ora
