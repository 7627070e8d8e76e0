// C24: linear regression tables and linear least squares kernels against long-double oracles.
#include "vf.h"
#include "gen.h"
#include "arma.h"
#include "ols.h"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
extern "C" {
#include "regression.h"
#include "lls.h"
}
const char *vf_driver_name = "c24_reg";
namespace {
namespace bm = boost::math; typedef bm::policies::policy<bm::policies::promote_double<false>, bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>> Pol; const Pol pol;
LD gp(LD a, LD x) { return x <= 0 ? 0 : bm::gamma_p(a, x, pol); }
LD ib(LD a, LD b, LD x) { return x <= 0 ? 0 : x >= 1 ? 1 : bm::ibeta(a, b, x, pol); }
LD ttail(LD t, LD n) { t = fabsl(t); return 0.5L * ib(n / 2, 0.5L, n / (n + t * t)); }
LD ftail(LD x, LD a, LD b) { return x <= 0 ? 1 : ib(b / 2, a / 2, b / (b + a * x)); }
// rounding the beta variate to a double moves a tail probability by its density
LD bden(LD x, LD a, LD b) { return x > 0 && x < 1 ? expl((a - 1) * logl(x) + (b - 1) * log1pl(-x) + lgammal(a + b) - lgammal(a) - lgammal(b)) : 0; }
LD tslack(LD t, LD n) { t = fabsl(t); return 2e-12L + 2e-14L * n + std::min(0.5L * t, n * 4e-16L / (t + 1e-300L)); }
LD fslack(LD x, LD a, LD b) { LD z = b / (b + a * x); return 4e-12L + 2e-14L * (a + b) + std::min(1e-6L, 4e-16L * (bden(z, b / 2, a / 2))); }
typedef std::vector<LVec> LM;
LD EPS = 2.220446049250313e-16L;
LM cols_of(const std::vector<Vec> &c) { LM r; for (auto &v : c) r.push_back(LVec(v.begin(), v.end())); return r; }
struct Tab { int n, p; LM X; LVec y; ols::Fit f; LM Inv; LVec db; LD dinv = 0; bool good = false; };
// bounds on what a double solver of the normal equations may lose
bool prepare(Tab &t, char method) {
  t.f = ols::fit(t.X, t.y); if (!t.f.ok) return false; int p = t.p, n = t.n; LM G(p, LVec(p, 0)), AG = G; LVec gy(p, 0), agy = gy;
  for (int i = 0; i < p; i++) { for (int j = 0; j < p; j++) for (int k = 0; k < n; k++) { G[i][j] += t.X[i][k] * t.X[j][k]; AG[i][j] += fabsl(t.X[i][k] * t.X[j][k]); } for (int k = 0; k < n; k++) { gy[i] += t.X[i][k] * t.y[k]; agy[i] += fabsl(t.X[i][k] * t.y[k]); } }
  t.Inv.assign(p, LVec(p, 0)); for (int j = 0; j < p; j++) { LM A = G; LVec e(p, 0), x; e[j] = 1; if (!ora::solve(A, e, x)) return false; for (int i = 0; i < p; i++) t.Inv[i][j] = x[i]; }
  LD fa = 0, nb = 0, nr = 0; for (auto &r : AG) for (LD v : r) fa += v * v; fa = sqrtl(fa); for (LD v : t.f.b) nb += v * v; nb = sqrtl(nb); for (LD v : agy) nr += v * v; nr = sqrtl(nr);
  LD c = 4 * EPS * (n + 4 * p * p), be = c * (fa * nb + nr); t.db.assign(p, 0); LD ni = 0; for (auto &r : t.Inv) for (LD v : r) ni += v * v; ni = sqrtl(ni);
  if (!(c * fa * ni < 1e-4L)) return false;
  for (int i = 0; i < p; i++) { LD s = 0; for (LD v : t.Inv[i]) s += fabsl(v); t.db[i] = 2 * s * be + 4 * EPS * fabsl(t.f.b[i]); }
  if (method == 'n') { LD f2 = fa * fa, n2 = ni * ni; if (!(c * f2 * n2 < 1e-4L)) return false; LM I2(p, LVec(p, 0)); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) for (int k = 0; k < p; k++) I2[i][j] += t.Inv[i][k] * t.Inv[k][j]; for (int i = 0; i < p; i++) { LD s = 0; for (LD v : I2[i]) s += fabsl(v); t.db[i] += 2 * s * c * (f2 * nb + fa * nr); } }
  t.dinv = c * fa; t.good = true; return true;
}
struct Design { Tab t; std::vector<Vec> cols; Vec y, flat; int N, p, icpt; const char *kind; };
Design design(vf::Rng &r, int p, int icpt, bool poly) {
  Design d; int q = p - icpt; d.p = p; d.icpt = icpt; d.N = p + (r.chance(0.15) ? r.irange(1, 3) : r.irange(4, r.chance(0.1) ? 300 : 60)); if (d.N < 3) d.N = 3; int N = d.N; int k = r.irange(0, 5); d.kind = "gauss";
  for (int j = 0; j < q; j++) { Vec v(N); double off = r.chance(0.4) ? r.range(-20, 20) : 0, sc = r.chance(0.5) ? std::pow(10.0, r.range(-2, 3)) : 1; int kk = k == 5 ? r.irange(0, 4) : k;
    for (int i = 0; i < N; i++) v[i] = kk == 0 || kk == 4 ? sc * (off + r.norm()) : kk == 1 ? i + 1 + (j ? sc * r.norm() : 0) : kk == 2 ? (double)r.irange(0, 1) + (j ? 0.01 * j * i : 0) : std::sin(0.3 * (j + 1) * i) * sc; d.kind = k == 1 ? "trend" : k == 2 ? "dummies" : k == 3 ? "sines" : k == 5 ? "mixed" : "gauss"; if (kk == 4 && j > 0) { double a = r.range(0.5, 0.999); for (int i = 0; i < N; i++) v[i] += a * sc * d.cols[j - 1][i]; d.kind = "collinear-ish"; } d.cols.push_back(v); }
  if (poly && q) { Vec x(N); double sc = r.range(0.3, 3), o = r.chance(0.5) ? 0 : r.range(-1, 1); for (auto &v : x) v = o + sc * r.range(-1, 1); for (int j = 0; j < q; j++) { for (int i = 0; i < N; i++) d.cols[j][i] = std::pow(x[i], j + 1); } d.kind = "polynomial"; }
  double ys = r.chance(0.4) ? std::pow(10.0, r.range(-3, 5)) : 1, noise = r.chance(0.1) ? 1e-4 : r.chance(0.2) ? 0.05 : 1, b0 = icpt ? r.range(-10, 10) : 0; d.y.assign(N, 0); Vec b(q); for (int j = 0; j < q; j++) { double m = 0; for (double v : d.cols[j]) m = std::max(m, std::fabs(v)); b[j] = r.chance(0.25) ? 0 : r.norm() / (m > 0 ? m : 1) * 3; }
  for (int i = 0; i < N; i++) { double s = b0; for (int j = 0; j < q; j++) s += b[j] * d.cols[j][i]; d.y[i] = ys * (s + noise * r.norm()); }
  for (auto &v : d.cols) d.flat.insert(d.flat.end(), v.begin(), v.end());
  d.t.n = N; d.t.p = p; d.t.X.clear(); if (icpt) d.t.X.push_back(LVec(N, 1)); for (auto &v : d.cols) d.t.X.push_back(LVec(v.begin(), v.end())); d.t.y = LVec(d.y.begin(), d.y.end()); return d;
}
}
static void tlimits(vf::Ctx &c, const char *key, LD b, LD se, LD lo, LD up, LD alpha, int df, const char *d) {
  LD h = (up - lo) / 2; if (!(se > 0)) return; LD rt = 8 * EPS * (fabsl(b) + fabsl(lo) + fabsl(up)); c.ok(fabsl((up + lo) / 2 - b) <= rt + 1e-300L, key, "%s limits [%.12Lg, %.12Lg] not centred on %.12Lg", d, lo, up, b);
  LD t = h / se, tl = ttail(t, df), den = expl(lgammal((df + 1) / 2.0L) - lgammal(df / 2.0L) - (df + 1) / 2.0L * log1pl(t * t / df)) / sqrtl(df * 3.14159265358979L); LD sl = 2e-7L * (alpha / 2) + den * (rt / se) * 2 + 1e-11L * df; { LD x = df / (df + t * t), bd = x < 1 && x > 0 ? expl((df / 2.0L - 1) * logl(x) - 0.5L * log1pl(-x) + lgammal(df / 2.0L + 0.5L) - lgammal(df / 2.0L) - lgammal(0.5L)) : 0; sl += std::min(1e-4L, 1e-7L * bd); }
  c.ok(fabsl(tl - alpha / 2) <= sl, key, "%s half width %.10Lg is %.10Lg standard errors: tail %.10Lg, wanted %.10Lg (df %d)", d, h, t, tl, alpha / 2, df);
}
static void chilimits(vf::Ctx &c, const char *key, LD s2, LD lo, LD up, LD alpha, int df, const char *d) {
  LD a = gp(df / 2.0L, df * s2 / lo / 2), b = gp(df / 2.0L, df * s2 / up / 2), tol = 1e-8L + 1e-12L * df; c.ok(fabsl(a - (1 - alpha / 2)) <= tol && fabsl(b - alpha / 2) <= tol, key, "%s variance limits [%.10Lg, %.10Lg] around %.10Lg have probabilities %.10Lg %.10Lg (df %d alpha %.4Lg)", d, lo, up, s2, a, b, df, alpha);
}
static void regression(vf::Ctx &c) {
  vf::Rng &r = c.rng; int icpt = r.chance(0.7), p = icpt ? r.irange(1, r.chance(0.2) ? 9 : 5) : r.irange(r.chance(0.06) ? 0 : 1, 5); bool poly = r.chance(0.25) && p - icpt >= 1; if (poly && p - icpt > 4) p = icpt + 4; Design D = design(r, p, icpt, poly); Tab &t = D.t; int N = D.N, df = N - p;
  const char *M[] = {"qr", "normal", "svd"}; const char *m = M[r.irange(0, 2)]; c.mixv(D.y); c.mixv(D.flat); char d[120]; snprintf(d, sizeof d, "N=%d p=%d intercept=%d %s %s", N, p, icpt, D.kind, m);
  double alpha = r.chance(0.4) ? 0.05 : r.pick(std::vector<double>{0.01, 0.1, 0.2, 0.5, 0.32});
  reg_object o = reg_init(N, p); if (p > 0) setIntercept(o, icpt); if (p > 0 || r.chance(0.5)) setLLSMethod(o, (char *)m); 
  Vec fl = D.flat; if (poly) fl = D.cols[0]; In xi(fl, "x"), yi(D.y, "y"); Out res(N, "residuals"), V(std::max(1, p * p), "varcovar"); res.fill(1e99); V.fill(1e99);
  if (poly) regress_poly(o, xi, yi, res, V, alpha); else regress(o, fl.empty() ? NULL : (double *)xi, yi, res, V, alpha);
  c.outv(res, N); c.outv(V, p * p); c.out(o->r2); c.out(o->r2adj); c.out(o->sigma); c.out(o->loglik); c.out(o->aic); c.out(o->bic); c.out(o->aicc); c.out(o->TSS); c.out(o->ESS); c.out(o->RSS); c.out(o->FStat); c.out(o->PVal); c.out(o->sigma_lower); c.out(o->sigma_upper); for (int i = 0; i < p; i++) { c.out(o->beta[i].value); c.out(o->beta[i].stdErr); c.out(o->beta[i].lower); c.out(o->beta[i].upper); }
  if (r.chance(0.3)) { summary(o); anova(o); confint(o); }
  Vec tv(p + 1, 1e99), pv(p + 1, 1e99); zerohyp_val(o, tv.data(), pv.data()); 
  bool cond = p == 0 || prepare(t, m[0]); Vec b(p); for (int i = 0; i < p; i++) b[i] = o->beta[i].value;
  c.hit(icpt ? "reg:intercept" : "reg:none"); c.hit(m); c.hit(D.kind);
  if (p == 0) { t.f.res = t.y; } 
  if (!cond) { c.inconclusive("ill-conditioned"); free_reg(o); return; }
  c.nontrivial();
  for (int i = 0; i < p; i++) c.ok(fabsl(b[i] - t.f.b[i]) <= t.db[i], "coefficients", "%s beta[%d]=%.15g want %.15Lg (allowed %.2Lg, condition %.3Lg)", d, i, b[i], t.f.b[i], t.db[i], t.f.cond);
  // residuals of the reported coefficients
  LD rss = 0, mss = 0, ym = 0, tss = 0; bool rk = true; LD am = 0; if (N + p > 150) { for (int j = 0; j < p; j++) { LD q = 0; for (int i = 0; i < N; i++) q = std::max(q, fabsl(t.X[j][i])); for (int k = 0; k < p; k++) am = std::max(am, q * fabsl(b[k])); } am *= 30; } for (int i = 0; i < N; i++) { LD s = 0, a = am + fabsl(t.y[i]); for (int j = 0; j < p; j++) { s += t.X[j][i] * b[j]; a += fabsl(t.X[j][i] * b[j]); } LD e = t.y[i] - s; if (rk) rk = c.ok(fabsl(res[i] - e) <= 4 * EPS * (p + 2) * a, "residuals", "%s residual %d is %.15g, y - Xb is %.15Lg", d, i, res[i], e); rss += (LD)res[i] * res[i]; LD fv = t.y[i] - res[i]; mss += fv * fv; ym += t.y[i]; } ym /= N; for (LD v : t.y) tss += (v - ym) * (v - ym);
  LD yy = 0; for (LD v : t.y) yy += v * v; bool exact = !(rss > 1e-18L * yy); if (exact) c.hit("reg:exact");
  for (int j = 0; j < p; j++) { LD s = 0, a = 0, e = 0; for (int i = 0; i < N; i++) { s += t.X[j][i] * res[i]; a += fabsl(t.X[j][i]) * (fabsl(t.y[i])); for (int k = 0; k < p; k++) { a += fabsl(t.X[j][i] * t.X[k][i] * b[k]); } } for (int k = 0; k < p; k++) { LD g = 0; for (int i = 0; i < N; i++) g += fabsl(t.X[j][i] * t.X[k][i]); e += g * t.db[k]; } c.ok(fabsl(s) <= 8 * EPS * (p + 2) * a + 2 * e, "orthogonal", "%s residuals have product %.3Lg with regressor %d (allowed %.2Lg)", d, s, j, 8 * EPS * (p + 2) * a + 2 * e); }
  LD s2 = rss / df; c.ok(fabsl(o->sigma - s2) <= 1e-13L * N * s2, "sigma2", "%s residual variance %.15g want %.15Lg", d, o->sigma, s2); c.ok(o->df == df && o->df_RSS == df, "df", "%s df %d %d", d, o->df, o->df_RSS);
  for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { LD w = t.Inv[i][j] * s2, ri = 0, cj = 0; for (int k = 0; k < p; k++) { ri += fabsl(t.Inv[i][k]); cj += fabsl(t.Inv[k][j]); } LD tol = 4 * t.dinv * ri * cj * s2 + 1e-13L * N * fabsl(w); c.ok(fabsl(V[i * p + j] - w) <= tol, "varcovar", "%s covariance (%d,%d) %.12g want %.12Lg (allowed %.2Lg)", d, i, j, V[i * p + j], w, tol); }
  if (!exact) for (int i = 0; i < p; i++) { LD se = sqrtl((LD)V[i * (p + 1)]); c.ok(fabsl(o->beta[i].stdErr - se) <= 4 * EPS * se, "stderr", "%s se[%d] %.15g want %.15Lg", d, i, o->beta[i].stdErr, se); tlimits(c, "limits", b[i], se, o->beta[i].lower, o->beta[i].upper, alpha, df, d);
    LD tt = fabsl((LD)b[i]) / se, q = ttail(tt, df); c.ok(fabsl(tv[i] - tt) <= 1e-14L * tt, "zerohyp:t", "%s t[%d] %.15g want %.15Lg", d, i, tv[i], tt); c.ok(fabsl(pv[i] - q) <= tslack(tt, df), "zerohyp:p", "%s p[%d] %.15g want %.15Lg", d, i, pv[i], q); }
  if (!exact) chilimits(c, "sigma:limits", s2, o->sigma_lower, o->sigma_upper, alpha, df, d);
  // sums of squares
  { LD T = icpt ? tss : mss + rss, E = icpt ? tss - rss : mss, st = 1e-13L * N * (T + rss + N * ym * ym * 1e-3L) + 8 * EPS * N * yy; c.ok(fabsl(o->RSS - rss) <= 1e-13L * N * rss, "RSS", "%s %.15g want %.15Lg", d, o->RSS, rss); c.ok(fabsl(o->TSS - T) <= st, "TSS", "%s %.15g want %.15Lg", d, o->TSS, T); c.ok(fabsl(o->ESS - E) <= st, "ESS", "%s %.15g want %.15Lg", d, o->ESS, E); c.ok(fabsl((LD)o->TSS - o->ESS - o->RSS) <= 1e-13L * (fabsl((LD)o->TSS) + o->RSS), "TSS=ESS+RSS", "%s %.15g %.15g %.15g", d, o->TSS, o->ESS, o->RSS);
    if (T > 1e-9L * yy) { LD R2 = 1 - rss / T, rt = 1e-13L * N + 4 * st / T; c.ok(fabsl(o->r2 - R2) <= rt && o->r2 == o->R2[0], "R2", "%s R-squared %.15g want %.15Lg", d, o->r2, R2); LD ra = 1 - (1 - (LD)o->r2) * (N - icpt) / df; c.ok(fabsl(o->r2adj - ra) <= 1e-13L * (1 + fabsl(ra)) && o->r2adj == o->R2[1], "R2adj", "%s adjusted R-squared %.15g want %.15Lg", d, o->r2adj, ra); if (icpt) c.ok(o->r2 >= -rt && o->r2 <= 1 + rt, "R2:range", "%s %.15g", d, o->r2);
      int k = p - icpt; c.ok(o->df_ESS == k, "df_ESS", "%s %d", d, o->df_ESS);
      if (k > 0 && !exact) { LD F = (E / k) / (rss / df), ft = F * (rt + 2e-13L * N + 4 * EPS * N * T / rss) + 2 * st * df / (k * rss); c.ok(fabsl(o->FStat - F) <= ft, "F", "%s F %.15g want %.15Lg", d, o->FStat, F); if (o->FStat > 0) { LD q = ftail(o->FStat, k, df); c.ok(fabsl(o->PVal - q) <= fslack(o->FStat, k, df), "F:p", "%s F=%g p %.15g want %.15Lg", d, o->FStat, o->PVal, q); } } else if (k == 0) c.ok(std::isnan(o->FStat) && std::isnan(o->PVal), "F:none", "%s F %g p %g", d, o->FStat, o->PVal); } }
  if (!exact) { LD ll = -0.5L * N * (logl(2 * 3.141592653589793238L * rss / N) + 1), lt = 1e-13L * (N * N + fabsl(ll)); c.ok(fabsl(o->loglik - ll) <= lt, "loglik", "%s %.15g want %.15Lg", d, o->loglik, ll); LD aic = -2 * ll + 2 * p, bic = -2 * ll + p * logl(N); c.ok(fabsl(o->aic - aic) <= 3 * lt, "aic", "%s %.15g want %.15Lg", d, o->aic, aic); c.ok(fabsl(o->bic - bic) <= 3 * lt, "bic", "%s %.15g want %.15Lg", d, o->bic, bic); int k = p - icpt; if (N - k - 1 > 0) { LD cc = aic + 2.0L * k * ((LD)N / (N - k - 1) - 1); c.ok(fabsl(o->aicc - cc) <= 3 * lt + 1e-13L * fabsl(cc), "aicc", "%s %.15g want %.15Lg", d, o->aicc, cc); } }
  if (m[0] == 'q' && p > 0 && t.f.cond < 1e5 && t.f.ratio < 1e4) c.ok(o->rank == p, "rank", "%s reported rank %d", d, o->rank);
  // prediction at a new point
  if (p > 0) { Vec in(std::max(1, p - icpt)); for (auto &v : in) v = r.norm() * 2; LVec x0; if (icpt) x0.push_back(1); for (int j = 0; j < p - icpt; j++) x0.push_back(in[j]); In pi(in, "point"); In vi(V.vec(), "varcovar"); Out vr(2, "variance"); double got = fitted(o, pi, vi, vr); c.out(got); c.outv(vr, 2); LD w = 0, a = 0, q = 0, qa = 0; for (int i = 0; i < p; i++) { w += x0[i] * b[i]; a += fabsl(x0[i] * b[i]); for (int j = 0; j < p; j++) { q += x0[i] * x0[j] * V[i * p + j]; qa += fabsl(x0[i] * x0[j] * V[i * p + j]); } } c.ok(fabsl(got - w) <= 4 * EPS * p * a, "fitted", "%s %.15g want %.15Lg", d, got, w); c.ok(fabsl(vr[0] - q) <= 8 * EPS * p * qa && fabsl(vr[1] - q - s2) <= 8 * EPS * p * qa + 1e-13L * N * s2, "fitted:variance", "%s %.15g %.15g want %.15Lg %.15Lg", d, vr[0], vr[1], q, q + s2); }
  if (p >= 1 && r.chance(0.3)) { Out bb(p, "b"), sg(1, "sigma2"), xx(p * p, "xxti"), R2(2, "R2"), rs(N, "residuals"), an(7, "anova"), lo(p + 1, "lower"), up(p + 1, "upper"); int rank = -1; double dm = 0; In li(D.flat.empty() ? Vec(1, dm) : D.flat, "x"); linreg_multi(p, li, yi, N, bb, sg, xx, R2, rs, alpha, an, lo, up, &rank, (char *)m, icpt); bool g = true; for (int i = 0; i < p; i++) g = g && fabsl(bb[i] - t.f.b[i]) <= t.db[i]; c.ok(g, "linreg_multi", "%s differs", d);
    Vec t2(p), p2(p); In bi(bb.vec(), "b"), xi2(xx.vec(), "varcovar"); zerohyp_multi(N, bi, p, xi2, t2.data(), p2.data()); if (!exact) for (int i = 0; i < p; i++) { LD tt = fabsl((LD)bb[i]) / sqrtl(xx[i * (p + 1)]), q = ttail(tt, df); c.ok(fabsl(t2[i] - tt) <= 1e-14L * tt && fabsl(p2[i] - q) <= tslack(tt, df), "zerohyp_multi", "%s t %.15g p %.15g want %.15Lg %.15Lg", d, t2[i], p2[i], tt, q); } }
  if (c.idx % 151 == 7) c.sample("%s: R2=%.10g F=%.8g p=%.4g beta0=%.10g oracle %.10Lg", d, o->r2, o->FStat, o->PVal, p ? b[0] : 0, p ? t.f.b[0] : 0);
  free_reg(o);
}
static void simple(vf::Ctx &c) {
  vf::Rng &r = c.rng; Design D = design(r, 2, 1, false); Tab &t = D.t; int N = D.N, df = N - 2; double al = r.pick(std::vector<double>{0.05, 0.01, 0.1}); c.hit("clrm"); In xi(D.flat, "x"), yi(D.y, "y"); Out b(2, "b"), v(5, "var"), res(N, "residuals"), an(7, "anova"), lo(3, "lower"), up(3, "upper"); linreg_clrm(xi, yi, N, b, v, res, al, an, lo, up); c.outv(b, 2); c.outv(v, 5); c.outv(res, N); c.outv(an, 7); c.outv(lo, 3); c.outv(up, 3);
  if (!prepare(t, 'q')) { c.inconclusive("ill-conditioned"); return; } char d[60]; snprintf(d, sizeof d, "N=%d %s", N, D.kind); LD rel = 1e-12L * N * (1 + t.f.cond * t.f.cond * t.f.ratio); for (int i = 0; i < 2; i++) c.ok(fabsl(b[i] - t.f.b[i]) <= t.db[i], "clrm:coefficients", "%s b[%d]=%.15g want %.15Lg", d, i, b[i], t.f.b[i]);
  LD rss = 0; for (int i = 0; i < N; i++) { LD e = t.y[i] - b[0] - (LD)b[1] * t.X[1][i]; c.ok(fabsl(res[i] - e) <= 16 * EPS * (fabsl(t.y[i]) + fabsl(b[0]) + fabsl(b[1] * t.X[1][i])), "clrm:residuals", "%s", d); rss += (LD)res[i] * res[i]; } LD yy = t.f.yy, s2 = rss / df; if (!(rss > 1e-16L * yy)) return;
  c.ok(fabsl(v[0] - s2) <= 1e-12L * s2, "clrm:sigma2", "%s %.15g want %.15Lg", d, v[0], s2); const LD W[4] = {0, t.Inv[0][0], t.Inv[1][1], t.Inv[0][1]}; for (int k = 1; k < 4; k++) c.ok(fabsl(v[k] - W[k] * s2) <= rel * s2 * fabsl(W[k]) + 1e-13L * s2 * sqrtl(W[1] * W[2]), "clrm:variance", "%s entry %d %.15g want %.15Lg", d, k, v[k], W[k] * s2);
  LD ym = 0, T = 0; for (LD q : t.y) ym += q; ym /= N; for (LD q : t.y) T += (q - ym) * (q - ym); LD tt = rel + 1e-13L * N * (yy / T); c.ok(fabsl(v[4] - (1 - rss / T)) <= tt, "clrm:R2", "%s %.15g want %.15Lg", d, v[4], 1 - rss / T); c.ok(fabsl(an[0] - T) <= tt * T && fabsl(an[2] - rss) <= 1e-12L * rss && fabsl(an[1] - (T - rss)) <= tt * T && an[3] == 1 && an[4] == df, "clrm:anova", "%s %g %g %g", d, an[0], an[1], an[2]); LD F = (LD)an[1] / (rss / df); c.ok(fabsl(an[5] - F) <= 1e-11L * fabsl(F), "clrm:F", "%s %.15g want %.15Lg", d, an[5], F); if (an[5] > 0) { LD q = ftail(an[5], 1, df); c.ok(fabsl(an[6] - q) <= fslack(an[5], 1, df), "clrm:F:p", "%s %.15g want %.15Lg", d, an[6], q); }
  for (int i = 0; i < 2; i++) tlimits(c, "clrm:limits", b[i], sqrtl(v[1 + i]), lo[i], up[i], al, df, d); chilimits(c, "clrm:sigma:limits", s2, lo[2], up[2], al, df, d);
  Vec tv(2), pv(2); zerohyp_clrm(N, b, v, tv.data(), pv.data()); for (int i = 0; i < 2; i++) { LD w = fabsl((LD)b[i]) / sqrtl(v[1 + i]), q = ttail(w, df); c.ok(fabsl(tv[i] - w) <= 1e-14L * w && fabsl(pv[i] - q) <= tslack(w, df), "clrm:zerohyp", "%s t %.15g p %.15g want %.15Lg %.15Lg", d, tv[i], pv[i], w, q); }
}
namespace {
struct Mat { int m, n; Vec a; double operator()(int i, int j) const { return a[(size_t)i * n + j]; } };
LD fro(const Vec &a) { LD s = 0; for (double v : a) s += (LD)v * v; return sqrtl(s); }
Mat mat(vf::Rng &r, int m, int n, bool lowrank, int &rk) { Mat A{m, n, Vec((size_t)m * n)}; rk = std::min(m, n); double sc = r.chance(0.4) ? std::pow(10.0, r.irange(-3, 5)) : 1; int k = r.irange(0, 3);
  if (lowrank && rk > 1) { rk = r.irange(1, rk - 1); Vec B(m * rk), C(rk * n); for (auto &v : B) v = r.irange(-3, 3); for (auto &v : C) v = r.irange(-3, 3); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int l = 0; l < rk; l++) s += B[i * rk + l] * C[l * n + j]; A.a[i * n + j] = s; } return A; }
  for (auto &v : A.a) v = k == 1 ? r.irange(-4, 4) : k == 2 && r.chance(0.5) ? 0 : r.norm(); if (k == 1 || k == 2) for (int i = 0; i < std::min(m, n); i++) A.a[i * n + i] += 7 + i % 3; for (auto &v : A.a) v *= sc; return A; }
// orthonormal basis of the row space by pivoted Gram-Schmidt in long double; gap = smallest kept / largest dropped
std::vector<LVec> rowspace(const Mat &A, LD &kept, LD &drop) { std::vector<LVec> R(A.m, LVec(A.n)), Q; for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) R[i][j] = A(i, j); kept = 1e300L; drop = 0; LD first = 0; std::vector<char> used(A.m, 0); for (int s = 0; s < std::min(A.m, A.n) + 1; s++) { int bi = -1; LD bn = -1; for (int i = 0; i < A.m; i++) if (!used[i]) { LD q = 0; for (LD v : R[i]) q += v * v; if (q > bn) { bn = q; bi = i; } } if (bi < 0) break; bn = sqrtl(bn); if (s == 0) first = bn; if (!(bn > 1e-12L * first) || s == std::min(A.m, A.n)) { drop = bn; break; } kept = std::min(kept, bn / first); used[bi] = 1; LVec q = R[bi]; for (LD &v : q) v /= bn; for (auto &o : Q) { LD z = 0; for (int j = 0; j < A.n; j++) z += o[j] * q[j]; for (int j = 0; j < A.n; j++) q[j] -= z * o[j]; } LD nn = 0; for (LD v : q) nn += v * v; nn = sqrtl(nn); for (LD &v : q) v /= nn; Q.push_back(q); for (int i = 0; i < A.m; i++) if (!used[i]) { LD z = 0; for (int j = 0; j < A.n; j++) z += q[j] * R[i][j]; for (int j = 0; j < A.n; j++) R[i][j] -= z * q[j]; } } return Q; }
}
// x must minimise |b - Ax| (and lie in the row space when minimum norm is promised)
static void judge(vf::Ctx &c, const char *nm, const Mat &A, const Vec &b, const double *x, bool minnorm, LD kappa, LD extra, const char *d) {
  int m = A.m, n = A.n; c.outv(x, n); LD fa = fro(A.a), nx = 0, nb = fro(b); for (int i = 0; i < n; i++) nx += (LD)x[i] * x[i]; nx = sqrtl(nx); LVec res(m); LD nr = 0; for (int i = 0; i < m; i++) { LD s = b[i]; for (int j = 0; j < n; j++) s -= (LD)A(i, j) * x[j]; res[i] = s; nr += s * s; } nr = sqrtl(nr);
  LD tol = 16 * EPS * (m + n) * n * fa * (nr + fa * nx + extra * nb) + 1e-300L; char key[60]; snprintf(key, sizeof key, "%s:normal-equations", nm); for (int j = 0; j < n; j++) { LD s = 0; for (int i = 0; i < m; i++) s += A(i, j) * res[i]; if (!c.ok(fabsl(s) <= tol, key, "%s column %d product with residual %.3Lg (allowed %.2Lg, |x|=%.3Lg)", d, j, s, tol, nx)) break; }
  if (minnorm) { LD k, dr; auto Q = rowspace(A, k, dr); LVec y(n, 0); for (auto &q : Q) { LD z = 0; for (int j = 0; j < n; j++) z += q[j] * x[j]; for (int j = 0; j < n; j++) y[j] += z * q[j]; } LD e = 0; for (int j = 0; j < n; j++) e = std::max(e, fabsl(y[j] - x[j])); snprintf(key, sizeof key, "%s:minimum-norm", nm); c.ok(e <= 64 * EPS * (m + n) * n * kappa * nx, key, "%s component of the solution outside the row space %.3Lg (|x|=%.3Lg, rank %d)", d, e, nx, (int)Q.size()); }
}
static void kernels(vf::Ctx &c) {
  vf::Rng &r = c.rng; bool low = r.chance(0.25), wide = r.chance(0.25); int n = r.irange(1, r.chance(0.1) ? 30 : 9), m = wide ? std::max(1, n - r.irange(0, n - 1)) : n + r.irange(0, r.chance(0.2) ? 60 : 8), rk; Mat A = mat(r, m, n, low, rk); Vec b(m); for (auto &v : b) v = r.norm() * (r.chance(0.3) ? 100 : 1); c.mixv(A.a); c.mixv(b); LD kept, drop; auto Q = rowspace(A, kept, drop); char d[80]; snprintf(d, sizeof d, "%dx%d rank %d", m, n, (int)Q.size()); bool full = (int)Q.size() == std::min(m, n); if (!(kept > 1e-4L)) { c.inconclusive("rank"); return; } LD kap = std::min(m, n) / kept; c.hit(full ? (m >= n ? "lls:full" : "lls:wide") : "lls:deficient"); c.nontrivial(); In ai(A.a, "A"), bi(b, "b"); LD fa = fro(A.a);
  if (full) { Out x(n, "x"); x.fill(1e99); int rc = lls_qr(ai, bi, m, n, x); c.ok(rc == std::min(m, n), "lls_qr:rank", "%s returned %d", d, rc); judge(c, "lls_qr", A, b, x, m < n, kap, 1, d); if (m >= n && kap < 1e5L) { Out y(n, "x"); y.fill(1e99); int k = lls_normal(ai, bi, m, n, y); if (c.ok(k == 0, "lls_normal:return", "%s returned %d", d, k)) judge(c, "lls_normal", A, b, y, false, kap, 4, d); } }
  else if (m >= n && r.chance(0.5)) { Out y(n, "x"); (void)lls_normal(ai, bi, m, n, y); }
  if (m >= n) { Out x(n, "x"); x.fill(1e99); int rc = lls_svd(ai, bi, m, n, x); c.ok(rc == 0, "lls_svd:return", "%s returned %d", d, rc); judge(c, "lls_svd", A, b, x, true, kap, kap, d); }
  { Out x(n, "x"); x.fill(1e99); int rc = lls_svd2(ai, bi, m, n, x); c.ok(rc == 0, "lls_svd2:return", "%s returned %d", d, rc); judge(c, "lls_svd2", A, b, x, true, kap, kap, d); }
  // SVD by Golub-Reinsch
  if (m >= n) for (int w = 0; w < 2; w++) { const char *nm = w ? "svd_gr2" : "svd_gr"; Out U(m * n, "U"), V(n * n, "V"), q(n, "q"); U.fill(1e99); V.fill(1e99); q.fill(1e99); int rc = w ? svd_gr2(ai, m, n, U, V, q) : svd_gr(ai, m, n, U, V, q); c.outv(q, n); c.outi(rc); char key[50]; snprintf(key, sizeof key, "%s:return", nm); if (!c.ok(rc == 0, key, "%s returned %d", d, rc)) continue; LD tol = 32 * EPS * (m + n) * n; bool g = true; for (int i = 0; i < n; i++) g = g && q[i] >= 0 && (i == 0 || q[i] <= q[i - 1]); snprintf(key, sizeof key, "%s:order", nm); c.ok(g, key, "%s singular values not sorted and non-negative", d);
      LD e = 0, ov = 0, ou = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD s = -(LD)A(i, j); for (int k = 0; k < n; k++) s += (LD)U[i * n + k] * q[k] * V[j * n + k]; if (!(fabsl(s) <= e)) e = fabsl(s); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = -(i == j), u = s; for (int k = 0; k < n; k++) s += (LD)V[k * n + i] * V[k * n + j]; for (int k = 0; k < m; k++) u += (LD)U[k * n + i] * U[k * n + j]; if (!(fabsl(s) <= ov)) ov = fabsl(s); if (!(fabsl(u) <= ou)) ou = fabsl(u); }
      snprintf(key, sizeof key, "%s:product", nm); c.ok(e <= tol * fa, key, "%s |USV'-A| = %.3Lg of %.3Lg", d, e, fa); snprintf(key, sizeof key, "%s:V", nm); c.ok(ov <= tol, key, "%s |V'V-I| = %.3Lg", d, ov); if (full) { snprintf(key, sizeof key, "%s:U", nm); c.ok(ou <= tol, key, "%s |U'U-I| = %.3Lg", d, ou); } }
  // minfit
  { int P = r.irange(0, 3), np = n + P, mm = std::max(m, n); Vec B(m * std::max(1, P)); for (auto &v : B) v = r.norm(); Out AB(mm * np, "AB"), q(n, "q"); AB.fill(0); for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) AB[i * np + j] = A(i, j); for (int j = 0; j < P; j++) AB[i * np + n + j] = B[i * P + j]; } q.fill(1e99); int rc = minfit(AB, m, n, P, q); c.outv(AB, n * np); c.outv(q, n); LD tol = 32 * EPS * (m + n) * n, ov = 0, oa = 0, oc = 0; if (c.ok(rc == 0, "minfit:return", "%s returned %d", d, rc)) {
      std::vector<LVec> AV(n, LVec(m, 0)); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AV[k][i] += (LD)A(i, j) * AB[j * np + k]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = -(i == j), u = i == j ? -(LD)q[i] * q[i] : 0; for (int k = 0; k < n; k++) s += (LD)AB[k * np + i] * AB[k * np + j]; for (int k = 0; k < m; k++) u += AV[i][k] * AV[j][k]; ov = std::max(ov, fabsl(s)); oa = std::max(oa, fabsl(u)); } LD nb = fro(B); for (int k = 0; k < n; k++) for (int j = 0; j < P; j++) { LD s = -(LD)q[k] * AB[k * np + n + j]; for (int i = 0; i < m; i++) s += AV[k][i] * B[i * P + j]; oc = std::max(oc, fabsl(s)); }
      bool g = true; for (int i = 0; i < n; i++) g = g && q[i] >= 0; c.ok(g, "minfit:q", "%s negative singular value", d); c.ok(ov <= tol, "minfit:V", "%s |V'V-I| = %.3Lg", d, ov); c.ok(oa <= tol * fa * fa, "minfit:AV", "%s columns of AV are not orthogonal with lengths q: %.3Lg", d, oa); c.ok(oc <= tol * fa * nb, "minfit:C", "%s q*C differs from (AV)'B by %.3Lg", d, oc); } }
  // bidiagonalisation
  if (m >= n) { Out T(m * n, "A"), S(m * n, "A"), U(m * m, "U"), V(n * n, "V"); memcpy(T.p, A.a.data(), 8 * m * n); memcpy(S.p, A.a.data(), 8 * m * n); U.fill(9); V.fill(9); bidiag(T, m, n); bidiag_orth(S, m, n, U, V); c.outv(T, m * n); c.outv(U, m * m); c.outv(V, n * n); LD tol = 32 * EPS * (m + n) * n; bool g = true; for (int i = 0; i < m * n; i++) g = g && fabsl((LD)T[i] - S[i]) <= 1e-10L * (1 + fa); c.ok(g, "bidiag:same", "%s bidiag and bidiag_orth disagree", d); LD e = 0, ou = 0, ov = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD s = -(LD)A(i, j); for (int k = 0; k < n; k++) { s += (LD)U[i * m + k] * S[k * n + k] * V[j * n + k]; if (k + 1 < n) s += (LD)U[i * m + k] * S[k * n + k + 1] * V[j * n + k + 1]; } if (!(fabsl(s) <= e)) e = fabsl(s); } for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { LD s = -(i == j); for (int k = 0; k < m; k++) s += (LD)U[k * m + i] * U[k * m + j]; ou = std::max(ou, fabsl(s)); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = -(i == j); for (int k = 0; k < n; k++) s += (LD)V[k * n + i] * V[k * n + j]; ov = std::max(ov, fabsl(s)); } c.ok(e <= tol * fa, "bidiag:product", "%s |UBV'-A| = %.3Lg of %.3Lg", d, e, fa); c.ok(ou <= tol && ov <= tol, "bidiag:orthogonal", "%s %.3Lg %.3Lg", d, ou, ov); }
  if (c.idx % 151 == 8) c.sample("least squares %s condition %.3Lg", d, kap);
}
void run_case(vf::Ctx &c) { for (int i = 0; i < 3; i++) { regression(c); simple(c); kernels(c); } }
