// C16: autocovariances, autocorrelations and partial autocorrelations follow their definitions.
#include "vf.h"
#include "gen.h"
#include "arma.h"
extern "C" {
#include "ctsa.h"
}
const char *vf_driver_name = "c16_acf";
static LVec acov(const Vec &x, int M) { int n = x.size(); LD m = 0; for (double v : x) m += v; m /= n; LVec g(M); for (int k = 0; k < M; k++) { LD s = 0; for (int t = 0; t + k < n; t++) s += (x[t] - m) * (x[t + k] - m); g[k] = s / n; } return g; }
// Durbin-Levinson reflection coefficients from rho(0..M)
static LVec durbin(const LVec &r, int M, LD *vmin) { LVec pc(M), a(M), b; LD v = r[0]; *vmin = 1; for (int k = 1; k <= M; k++) { LD s = r[k]; for (int j = 1; j < k; j++) s -= a[j - 1] * r[k - j]; LD f = s / v; pc[k - 1] = f; b = a; for (int j = 1; j < k; j++) a[j - 1] = b[j - 1] - f * b[k - 1 - j]; a[k - 1] = f; v *= 1 - f * f; *vmin = std::min(*vmin, v / r[0]); } return pc; }
static LVec burgpc(const Vec &x, int M) { int n = x.size(); LVec f(x.begin(), x.end()), b = f, pc(M); for (int k = 1; k <= M; k++) { LD num = 0, den = 0; for (int t = k; t < n; t++) { num += f[t] * b[t - 1]; den += f[t] * f[t] + b[t - 1] * b[t - 1]; } LD r = 2 * num / den; pc[k - 1] = r; LVec f2 = f, b2 = b; for (int t = k; t < n; t++) { f2[t] = f[t] - r * b[t - 1]; b2[t] = b[t - 1] - r * f[t]; } f = f2; b = b2; } return pc; }
// conditional least squares AR(k) with constant
static bool lsar(const Vec &x, int k, LVec &phi) { int n = x.size(), q = k + 1; std::vector<LVec> A(q, LVec(q, 0)); LVec b(q, 0); for (int t = k; t < n; t++) { LVec r(q); r[0] = 1; for (int i = 1; i <= k; i++) r[i] = x[t - i]; for (int i = 0; i < q; i++) { for (int j = 0; j < q; j++) A[i][j] += r[i] * r[j]; b[i] += r[i] * x[t]; } } LVec s; if (!ora::solve(A, b, s)) return false; phi.assign(s.begin() + 1, s.end()); return true; }
void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int N = r.chance(0.1) ? r.irange(4, 20) : r.irange(20, 400), per = r.chance(0.3) ? r.irange(2, 12) : 0; std::string nm; Vec x = gen::series(r, N, per, &nm);
  double a = 0, b = 1; if (r.chance(0.6)) { b = std::pow(10.0, r.range(-3, 3)); a = r.chance(0.5) ? 0 : b * r.range(-50, 50); gen::affine(x, a, b); }
  int M = r.chance(0.1) ? N : r.irange(1, std::min(N, 40));
  c.mixv(x); c.mix(M); c.nontrivial(); LVec g = acov(x, M); LD level = 0; for (double v : x) level = std::max(level, fabsl((LD)v));
  double g0 = (double)g[0], sc = g0 + 1e-12 * (double)(level * level);
  In xi(x, "series"); char d[120]; snprintf(d, sizeof d, "%s N=%d M=%d", nm.c_str(), N, M);
  auto cmp = [&](const char *key, const double *got, auto want, double tol, double scale) { for (int k = 0; k < M; k++) if (!c.ok(std::fabs((double)(got[k] - want(k))) <= tol * scale, key, "%s lag %d got %.15g want %.15Lg", d, k, got[k], (LD)want(k))) return; };
  auto W = [&](int k) { return g[k]; }; auto R = [&](int k) { return g[k] / g[0]; };
  { Out o(M, "acvf"); acvf(xi, N, o, M); c.outv(o, M); cmp("acvf", o, W, 1e-10, sc); Out o2(M, "acvf"); o2.fill(0); memcpy(o2.p, o.p, 8 * M); acvf2acf(o2, M); c.outv(o2, M); if (g0 > 1e-20 * level * level) { cmp("acvf2acf", o2, R, 1e-9, 1 + (double)(1e-12L * level * level / g0)); } }
  { Out o(M, "acvf"); acvf_opt(xi, N, 0, o, M); c.outv(o, M); cmp("acvf_opt:direct", o, W, 1e-10, sc); }
  { Out o(M, "acvf"); acvf_opt(xi, N, 1, o, M); c.outv(o, M); cmp("acvf_opt:fft", o, W, 1e-9, sc); }
  { Out o(M, "acf"); autocorr(xi, N, o, M); c.outv(o, M); cmp("autocorr", o, R, 1e-9, 1 + (double)(1e-12L * level * level / g0)); c.ok(o[0] == 1.0, "acf:lag-zero", "%s acf[0]=%.17g", d, o[0]); for (int k = 0; k < M; k++) if (!c.ok(std::fabs(o[k]) <= 1 + 1e-12, "acf:bounds", "%s acf[%d]=%.17g", d, k, o[k])) break; }
  { auto_fft_object o = auto_fft_init(N); Out q(M, "acf"), w(M, "acvf"); autocovar_fft(o, xi, w, M); autocorr_fft(o, xi, q, M); free_auto(o); c.outv(q, M); c.outv(w, M); cmp("autocovar_fft", w, W, 1e-9, sc); cmp("autocorr_fft", q, R, 1e-8, 1 + (double)(1e-12L * level * level / g0)); }
  c.out(mean(xi, N)); c.out(var(xi, N));
  c.ok(std::fabs(var(xi, N) - g0) <= 1e-10 * sc, "variance", "%s var %.15g want %.15g", d, var(xi, N), g0);
  int K = std::min(r.irange(1, 20), (N - 2) / 2); if (K < 1) return;
  LVec gk = acov(x, K + 1); LD vmin; LVec pc = durbin(gk, K, &vmin); for (auto &v : gk) v /= g[0];
  double amp = 1e-12 * (1 + (double)(level * level / g[0])) / (double)(vmin * vmin) * K;
  Out py(K, "pacf"); pacf(xi, N, py, K); c.outv(py, K); Out p0(K, "pacf"); pacf_opt(xi, N, 0, p0, K); c.outv(p0, K);
  if (amp < 1e-4) for (int k = 0; k < K; k++) {
    if (!c.ok(std::fabs(py[k] - (double)pc[k]) <= 1e-9 + amp, "pacf:yule-walker", "%s pacf[%d]=%.12g want %.12Lg", d, k, py[k], pc[k])) break;
    if (!c.ok(std::fabs(p0[k] - (double)pc[k]) <= 1e-9 + amp, "pacf_opt:yule-walker", "%s pacf[%d]=%.12g want %.12Lg", d, k, p0[k], pc[k])) break;
    if (!c.ok(std::fabs(py[k]) <= 1 + 1e-9, "pacf:bounds", "%s pacf[%d]=%.15g", d, k, py[k])) break;
  }
  Out pb(K, "pacf"); pacf_opt(xi, N, 1, pb, K); c.outv(pb, K); LVec bp = burgpc(x, K); LD pw = 1; for (int k = 0; k < K; k++) {
    pw *= 1 - bp[k] * bp[k]; if (pw < 1e-6L) { c.hit("burg-deterministic"); break; }
    if (!c.ok(std::fabs(pb[k] - (double)bp[k]) <= 1e-9 + 1e-13 / (double)(pw * pw), "pacf_opt:burg", "%s pacf[%d]=%.12g want %.12Lg", d, k, pb[k], bp[k])) break; }
  if (N >= 60 && (c.idx % 4 == 0)) {  // Box-Jenkins estimates: close to least squares for clearly stationary series
    double tot = 0, edge = 0; { double mu = 0; for (double v : x) mu += v / N; for (int i = 0; i < N; i++) { double e = (x[i] - mu) * (x[i] - mu); tot += e; if (i < 4 || i >= N - 4) edge += e; } } double lev = tot > 0 ? edge / tot : 0;   // the two estimators treat the ends differently
    int K2 = std::min(K, 3); Out pm(K2, "pacf"); pacf_opt(xi, N, 2, pm, K2); c.outv(pm, K2);
    for (int k = 0; k < K2; k++) { LVec ph; LD mg; if (!lsar(x, k + 1, ph) || !ora::stationary(ph, &mg) || mg < 0.3L) { c.hit("skip:mle"); break; } c.hit("mle");
      if (!c.ok(std::fabs(pm[k] - (double)ph[k]) <= 6.0 * (k + 2) / N + 3 * lev, "pacf_opt:mle", "%s N=%d pacf[%d]=%.12g least squares %.12Lg", d, N, k, pm[k], ph[k])) break; }
  }
  // shift and scale (exact powers of two keep the scaling free of rounding)
  { Vec y = x; double s2 = std::ldexp(r.chance(0.5) ? 1.0 : -1.0, r.irange(-6, 6)); for (auto &v : y) v *= s2; In yi(y, "series"); Out o(M, "acf"), o2(M, "acf"); autocorr(yi, N, o, M); autocorr(xi, N, o2, M); c.closev("acf:rescaled", o, o2, M, 1e-12, 1, "acf");
    Out w(M, "acvf"), w2(M, "acvf"); acvf_opt(yi, N, 1, w, M); acvf_opt(xi, N, 1, w2, M); for (int k = 0; k < M; k++) w2[k] *= s2 * s2; c.closev("acvf:rescaled", w, w2, M, 1e-12, g0 * s2 * s2, "acvf"); }
  if (c.idx % 331 == 7) c.sample("%s acvf[1]=%.6Lg pacf[0]=%.6g oracle %.6Lg", d, M > 1 ? g[1] : g[0], py[0], pc[0]);
}
