// C31: Box-Jenkins estimates minimise the back-forecasted (unconditional) sum of squares and report it truthfully.
#include "pair.h"
const char *vf_driver_name = "c31_boxjen";
using namespace fit;
// Residuals of the back-forecasting method, from its definition: backward residuals, backcasts, forward residuals.
static int backlen(const Spec &sp) { int q = sp.q + sp.s * sp.Q + 20 * (sp.p + sp.s * sp.P); return std::max(q, 15 + sp.D * sp.s); }
static bool backcast(const Spec &sp, const LVec &b, LVec &a, LD *tail = nullptr) {
  size_t k = 0; LVec phi(b.begin(), b.begin() + sp.p); k = sp.p; LVec th(b.begin() + k, b.begin() + k + sp.q); k += sp.q; LVec PH(b.begin() + k, b.begin() + k + sp.P); k += sp.P; LVec TH(b.begin() + k, b.begin() + k + sp.Q); k += sp.Q;
  LVec w = wseries(sp, sp.hasmean() ? b[k] : 0, LVec()), ar = ora::expand(phi, PH, sp.s), ma = ora::expand(th, TH, sp.s);   // w_t = sum ar w + a_t - sum ma a
  int N = w.size(), p = ar.size(), q = ma.size(), m = std::max(p, q), B = backlen(sp); if (N <= m + 1) return false;
  auto W = [&](const LVec &bk, int t) -> LD { return t >= 0 ? w[t] : bk[-1 - t]; };
  LVec e(N, 0), bk(B, 0); for (int t = N - m - 1; t >= 0; t--) { LD s = w[t]; for (int i = 1; i <= p; i++) s -= ar[i - 1] * w[t + i]; for (int i = 1; i <= q; i++) s += ma[i - 1] * e[t + i]; e[t] = s; }
  for (int j = 0; j < B; j++) { int t = -1 - j; LD s = 0; for (int i = 1; i <= p; i++) s += ar[i - 1] * W(bk, t + i); for (int i = 1; i <= q; i++) if (t + i >= 0) s -= ma[i - 1] * e[t + i]; bk[j] = s; }
  a.assign(N + B, 0); for (int n = 0; n < N + B; n++) { int t = n - B; LD s = W(bk, t); for (int i = 1; i <= p && n - i >= 0; i++) s -= ar[i - 1] * W(bk, t - i); for (int i = 1; i <= q && n - i >= 0; i++) s += ma[i - 1] * a[n - i]; a[n] = s; }
  if (tail) { *tail = 0; for (int j = std::max(0, B - std::max(p, 1)); j < B; j++) *tail = std::max(*tail, fabsl(bk[j])); }   // size of the backcasts where they are cut off
  for (LD v : a) if (!(fabsl(v) < 1e300L)) return false; a.erase(a.begin()); return true;   // the earliest one is a starting value
}
static LD ssq(const LVec &a) { LD s = 0; for (LD v : a) s += v * v; return s; }
void run_case(vf::Ctx &c) {
  vf::Rng &g = c.rng; GenOpt o; o.kinds[2] = false; o.methods = 1; o.match = 0.85; o.nmin = g.chance(0.15) ? 30 : 60; o.nmax = 200; o.smax = 7; o.allopts = false; Spec sp = random_spec(c, o); sp.method = 3;
  if (sp.hasmean() && g.chance(0.15)) { double m = 0; for (double v : sp.y) m += v / sp.N; for (auto &v : sp.y) v -= m; }    // a series somebody has centred already
  if (sp.P + sp.Q) sp.N = sp.y.size(); char d[220]; sp.describe(d, sizeof d); if (sp.Nused() <= (sp.P + sp.Q + 1) * sp.s + 5) { c.hit("skip:short"); return; }
  Fc f; bool ok = fitall(sp, 6, Vec(), f); Model &m = f.m; char t[80]; snprintf(t, sizeof t, "%s:ret%d", kname[sp.kind], m.retval); c.hit(t); if (VF_NO_ORACLE) return;
  c.mix(sp.hash()); c.mixv(sp.y); c.ok(m.retval == 1 || m.retval == 4 || m.retval == 15, "return-code", "%s code %d", d, m.retval);
  LVec b = pack(m); int n = b.size(), na = sp.p + sp.q + sp.P + sp.Q, N = sp.Nused(); if (!ok) return;
  for (LD v : b) if (!c.ok(std::isfinite((double)v), "not-finite", "%s a coefficient is not finite", d)) return;
  if (!c.ok(std::isfinite(m.var) && m.var >= 0, "not-finite", "%s var %g", d, m.var)) return;
  LVec a; LD tail = 0; if (!backcast(sp, b, a, &tail)) { c.inconclusive("oracle"); return; } LD S = ssq(a); int B = backlen(sp); LD ms, mi; bool st = is_stationary(m, &ms), iv = is_invertible(m, &mi); if (!st || !iv || ms < 0.01L || mi < 0.01L) { c.hit(st && iv ? "near-boundary" : "outside"); }
  bool inner = st && iv && ms > 0.02L && mi > 0.02L; double sd = (double)sqrtl(S / N);
  if (inner) {
    c.nontrivial(); snprintf(t, sizeof t, "%s:d%d:D%d", kname[sp.kind], sp.d, sp.D); c.hit(t);
    double rt = 1e-4; double v = (double)(S / (n ? N - n : N)); c.ok(std::fabs(m.var - v) <= rt * v, "variance", "%s var %.12g, back-forecasted sum of squares over the degrees of freedom %.12g", d, m.var, v);
    double worst = 0; int wi = 0; for (int i = 0; i < N; i++) { double e = std::fabs(m.res[i] - (double)a[B - 1 + i]); if (!(e <= worst)) worst = e, wi = i; } c.ok(worst <= 1e-3 * sd, "residuals", "%s res[%d]=%.10g differs by %.3g from the back-forecasted residual (sd %.3g)", d, wi, m.res[wi], worst, sd);
  }
  if (n == 0 || !inner) return;
  // derivative matrix, Gauss-Newton information
  std::vector<LVec> X(n), G(n, LVec(n, 0)), R(n, LVec(n, 0)); bool fine = true;
  for (int i = 0; i < n && fine; i++) { LD h = i < na ? 1e-5L : 1e-5L * sd; LVec q = b, ap, am; q[i] += h; fine = backcast(sp, q, ap); q[i] = b[i] - h; fine = fine && backcast(sp, q, am); if (fine) { X[i].resize(a.size()); for (size_t k = 0; k < a.size(); k++) X[i][k] = (ap[k] - am[k]) / (2 * h); } }
  if (!fine) { c.inconclusive("derivative"); return; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = 0; for (size_t k = 0; k < a.size(); k++) s += X[i][k] * X[j][k]; G[i][j] = s; }
  for (int j = 0; j < n; j++) { LVec e(n, 0), x; e[j] = 1; if (!ora::solve(G, e, x)) { c.inconclusive("singular"); return; } for (int i = 0; i < n; i++) R[i][j] = x[i] * S / (N - n); }
  LD vif = 1; for (int i = 0; i < n; i++) vif = std::max(vif, R[i][i] * G[i][i] * (N - n) / S); c.hit(vif < 10 ? "well-conditioned" : "ill-conditioned");
  // local optimality along each coefficient
  double worst = 0; int wi = 0; for (int i = 0; i < n; i++) { LD se = std::min(sqrtl(S / (N - n) / G[i][i]), i < na ? 0.3L : 1e300L); for (LD k : {-1.0L, -0.3L, -0.1L, 0.1L, 0.3L, 1.0L}) { LVec q = b, aq; q[i] += k * se; c.checks++; if (backcast(sp, q, aq)) { double gain = (double)(0.5L * N * logl(S / ssq(aq))); if (gain > worst) worst = gain, wi = i; } } }
  if (getenv("VF_DBG")) fprintf(stderr, "G %s ms %.3Lg mi %.3Lg vif %.3Lg worst %.4g\n", d, ms, mi, vif, worst);
  c.ok(worst <= 1.0, "not-a-minimum", "%s moving coefficient %d lowers the sum of squares: half the sample size times the log ratio is %.4g", d, wi, worst);
  { LVec z = b, az; for (int i = 0; i < na; i++) z[i] = 0; if (backcast(sp, z, az)) c.ok(0.5L * N * logl(S / ssq(az)) <= 0.1L, "worse-than-no-arma", "%s sum of squares %.9Lg, with all ARMA coefficients zero %.9Lg", d, S, ssq(az)); }
  // covariance
  c.ok(m.lvcov == n * n, "vcov:length", "%s lvcov %d", d, m.lvcov);
  if (vif < 50 && worst < 0.01) { double w = 0; int i0 = 0, j0 = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = std::fabs(f.vc[i * n + j] - (double)R[i][j]) / (double)sqrtl(R[i][i] * R[j][j]); if (!(e <= w)) w = e, i0 = i, j0 = j; } if (getenv("VF_DBG")) fprintf(stderr, "V %g vif %.3Lg\n", w, vif); c.hit("vcov"); c.ok(w <= 0.02, "vcov", "%s element [%d,%d] %.9g, residual variance times the inverse cross-product matrix of the derivatives %.9Lg", d, i0, j0, f.vc[i0 * n + j0], R[i0][j0]); }
  // against the exact quadratic form: back-forecasting is exact up to its truncation
  if (ms > 0.3L && mi > 0.3L && N > 60 && tail < 0.1L * sd) { Eval e = eval(sp, b, true); if (e.ok) { double r = (double)(e.ssq / S); if (getenv("VF_DBG")) fprintf(stderr, "E %.6g\n", r); c.hit("exact"); c.ok(std::fabs(r - 1) <= 0.03, "exact-form", "%s sum of squares %.9Lg, exact quadratic form %.9Lg", d, S, e.ssq); } }
  // moving and rescaling the series, the other front end
  if (vif < 20 && ms > 0.05L && mi > 0.05L && worst < 0.01 && identified(m)) {
    Spec s2 = sp; double A = 1, C = 0; int what = g.irange(0, 2); const char *rel = what == 0 ? "shift" : what == 1 ? "scale" : "front-end";
    if (what == 0) { if (!(sp.hasmean() || sp.d + sp.D)) return; C = g.range(-30, 30) * sd; } else if (what == 1) { A = std::pow(10.0, g.range(-2, 2)); if (g.chance(0.3)) A = -A; } else { if (sp.P + sp.D + sp.Q) return; s2.kind = sp.kind == ARIMA ? SARIMA : ARIMA; s2.s = s2.kind == SARIMA ? g.irange(2, 8) : 0; }
    for (auto &v : s2.y) v = C + A * v; Fc h; if (!fitall(s2, 6, Vec(), h)) { c.hit("second-fit-failed"); return; } LVec b2 = pack(h.m), a2; if (!backcast(s2, b2, a2)) { c.inconclusive("oracle"); return; }
    // a different minimum is possible; both have to be minima, which is checked above for every case
    bool same = fabsl(logl(ssq(a2) / (A * A) / S)) * N / 2 < 1e-4L; c.hit(same ? rel : "another-minimum"); if (!same) return;
    char key[64]; snprintf(key, sizeof key, "%s:coefficients", rel); for (int i = 0; i < na; i++) { double se = (double)sqrtl(R[i][i]); if (!c.ok(std::fabs((double)(b2[i] - b[i])) <= 0.25 * se, key, "%s coefficient %d: %.9Lg and %.9Lg (se %.3g)", d, i, b[i], b2[i], se)) return; }
    if (sp.hasmean()) { double se = (double)sqrtl(R[na][na]) * std::fabs(A), w = C + A * m.mean; snprintf(key, sizeof key, "%s:mean", rel); c.ok(std::fabs(h.m.mean - w) <= 0.25 * se + 1e-9 * std::fabs(C), key, "%s mean %.10g expected %.10g (se %.3g)", d, h.m.mean, w, se); }
    snprintf(key, sizeof key, "%s:forecast", rel); for (int k = 0; k < 6; k++) { double w = C + A * f.x[k], se = std::fabs(A) * sqrt(f.v[k]); if (!c.ok(std::fabs(h.x[k] - w) <= 0.1 * se + 1e-9 * std::fabs(C), key, "%s xpred[%d] %.10g expected %.10g (se %.3g)", d, k, h.x[k], w, se)) return; }
  }
  if (c.idx % 97 == 3) c.sample("%s sum of squares %.8Lg var %.8g best single-coefficient gain %.3g", d, S, m.var, worst);
}
