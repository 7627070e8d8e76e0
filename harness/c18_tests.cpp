// C18: unit-root and seasonality tests compute their defining statistics and p-values.
#include "vf.h"
#include "gen.h"
#include "ols.h"
extern "C" {
#include "ctsa.h"
#include "autoutils.h"
#include "seastest.h"
#include "unitroot.h"
}
const char *vf_driver_name = "c18_tests";
static const double NT[6] = {25, 50, 100, 250, 500, 100000}, PR[8] = {0.01, 0.025, 0.05, 0.10, 0.90, 0.95, 0.975, 0.99};
static const double TT[8][6] = {{4.38, 4.15, 4.04, 3.99, 3.98, 3.96}, {3.95, 3.80, 3.73, 3.69, 3.68, 3.66}, {3.60, 3.50, 3.45, 3.43, 3.42, 3.41}, {3.24, 3.18, 3.15, 3.13, 3.13, 3.12}, {1.14, 1.19, 1.22, 1.23, 1.24, 1.25}, {0.80, 0.87, 0.90, 0.92, 0.93, 0.94}, {0.50, 0.58, 0.62, 0.64, 0.65, 0.66}, {0.15, 0.24, 0.28, 0.31, 0.32, 0.33}};
static const double TA[8][6] = {{22.5, 25.7, 27.4, 28.4, 28.9, 29.5}, {19.9, 22.4, 23.6, 24.4, 24.8, 25.1}, {17.9, 19.8, 20.7, 21.3, 21.5, 21.8}, {15.6, 16.8, 17.5, 18.0, 18.1, 18.3}, {3.66, 3.71, 3.74, 3.75, 3.76, 3.77}, {2.51, 2.60, 2.62, 2.64, 2.65, 2.66}, {1.53, 1.66, 1.73, 1.78, 1.78, 1.79}, {0.43, 0.65, 0.75, 0.82, 0.84, 0.87}};
static const double CT1[6][3] = {{-2.66, -1.95, -1.60}, {-2.62, -1.95, -1.61}, {-2.60, -1.95, -1.61}, {-2.58, -1.95, -1.62}, {-2.58, -1.95, -1.62}, {-2.58, -1.95, -1.62}};
static const double CT2[6][3] = {{-3.75, -3.00, -2.63}, {-3.58, -2.93, -2.60}, {-3.51, -2.89, -2.58}, {-3.46, -2.88, -2.57}, {-3.44, -2.87, -2.57}, {-3.43, -2.86, -2.57}};
static const double CT3[6][3] = {{-4.38, -3.60, -3.24}, {-4.15, -3.50, -3.18}, {-4.04, -3.45, -3.15}, {-3.99, -3.43, -3.13}, {-3.98, -3.42, -3.13}, {-3.96, -3.41, -3.12}};
static const double CP1[6][3] = {{7.88, 5.18, 4.12}, {7.06, 4.86, 3.94}, {6.70, 4.71, 3.86}, {6.52, 4.63, 3.81}, {6.47, 4.61, 3.79}, {6.43, 4.59, 3.78}};
static const double CP2[6][3] = {{8.21, 5.68, 4.67}, {7.02, 5.13, 4.31}, {6.50, 4.88, 4.16}, {6.22, 4.75, 4.07}, {6.15, 4.71, 4.05}, {6.09, 4.68, 4.03}};
static const double CP3[6][3] = {{10.61, 7.24, 5.91}, {9.31, 6.73, 5.61}, {8.73, 6.49, 5.47}, {8.43, 6.49, 5.47}, {8.34, 6.30, 5.36}, {8.27, 6.25, 5.34}};
static double interp(const double *x, const double *y, int n, double z) {  // x ascending, constant beyond the ends
  if (!(z > x[0])) return y[0]; if (z >= x[n - 1]) return y[n - 1];
  for (int i = 1; i < n; i++) if (z <= x[i]) return y[i - 1] + (y[i] - y[i - 1]) * (z - x[i - 1]) / (x[i] - x[i - 1]);
  return y[n - 1];
}
static double ptab(const double T[8][6], double n, double stat) { double tp[8]; for (int i = 0; i < 8; i++) tp[i] = -interp(NT, T[i], 6, n); return interp(tp, PR, 8, stat); }
static LVec sub(const Vec &v, int a, int n) { return LVec(v.begin() + a, v.begin() + a + n); }
static Vec dif(const Vec &x, int s) { Vec z; for (size_t i = s; i < x.size(); i++) z.push_back(x[i] - x[i - s]); return z; }
static int shortlag(int n, int sh) { return (int)((sh == 1 ? 4.0 : 12.0) * std::pow(n / 100.0, 0.25)); }
static LD lrv(const LVec &e, int l) { int n = e.size(); LD s = 0; for (LD v : e) s += v * v; for (int i = 1; i <= l; i++) { LD t = 0; for (int j = i; j < n; j++) t += e[j] * e[j - i]; s += 2 * t * (1 - (LD)i / (l + 1)); } return s / n; }
struct DF { bool ok = false; int lag = 0; double tol = 0, gap = 1e9; LD tau = 0, phiA = 0, phiB = 0; };  // phiA: phi1/phi2, phiB: phi3
static DF df2(const Vec &y, int lag, const std::string &type, const std::string &sel) {
  DF r; int n1 = y.size() - 1, L = lag + 1, n2 = n1 - L + 1; Vec z = dif(y, 1); LVec zd = sub(z, L - 1, n2);
  LVec tt(n2); for (int i = 0; i < n2; i++) tt[i] = i + L;
  auto build = [&](int k, bool y1, bool c, bool t) { std::vector<LVec> X; if (c) X.push_back(ols::ones(n2)); if (y1) X.push_back(sub(y, L - 1, n2)); if (t) X.push_back(tt); for (int i = 1; i <= k; i++) X.push_back(sub(z, L - 1 - i, n2)); return X; };
  bool c = type != "none", t = type == "trend"; int k = lag;
  if (sel != "fixed" && lag > 0) { LD best = 1e300L, second = 1e300L; k = 0; for (int i = 1; i <= lag; i++) { auto f = ols::fit(build(i, true, c, t), zd); if (!f.ok) return r; LD ic = n2 * logl(f.rss / n2) + (sel == "aic" ? 2.0L : logl((LD)n2)) * f.p; if (ic < best) { second = best; best = ic; k = i; } else second = std::min(second, ic); } r.gap = (double)(second - best); }
  auto f = ols::fit(build(k, true, c, t), zd); if (!f.ok || n2 - f.p < 3) return r; r.lag = k; r.tol = ols::amp(f); r.tau = f.b[c ? 1 : 0] / f.se[c ? 1 : 0];
  auto g = ols::fit(build(k, false, false, false), zd); LD rg = k ? g.rss : g.yy; int pg = k; if (k && !g.ok) return r;
  if (c) r.phiA = (rg - f.rss) / (f.p - pg) / (f.rss / (n2 - f.p));
  if (t) { auto h = ols::fit(build(k, false, true, false), zd); if (!h.ok) return r; r.phiB = (h.rss - f.rss) / (f.p - h.p) / (f.rss / (n2 - f.p)); }
  r.ok = true; return r;
}
struct PP2 { bool ok = false; double tol = 0; LD stat = 0, aux[2] = {0, 0}; };
static PP2 pp2(const Vec &x, bool tau, bool trend, int l) {
  PP2 r; int n = x.size() - 1; LVec y = sub(x, 1, n), yl = sub(x, 0, n), tr(n); for (int i = 0; i < n; i++) tr[i] = i + 1 - n / 2.0L;
  std::vector<LVec> X{ols::ones(n), yl}; if (trend) X.push_back(tr); auto f = ols::fit(X, y); if (!f.ok) return r;
  LD s = f.rss / n, sig = lrv(f.res, l); if (!(sig > 1e-9L * s)) return r; LD ym = 0, sy = 0, sy2 = 0, ty = 0; for (int i = 0; i < n; i++) { sy += y[i]; sy2 += y[i] * y[i]; ty += (i + 1) * y[i]; } ym = sy / n; LD sv = 0; for (LD v : y) sv += (v - ym) * (v - ym);
  LD nn = n, myybar = sv / nn / nn, myy = sy2 / nn / nn, mty = powl(nn, -2.5L) * ty, my = powl(nn, -1.5L) * sy, lam = (sig - s) / 2, lp = lam / sig, t0 = f.b[0] / f.se[0], tst = (f.b[1] - 1) / f.se[1], M = myybar;
  if (trend) { M = (1 - 1 / nn / nn) * myy - 12 * mty * mty + 12 * (1 + 1 / nn) * mty * my - (4 + 6 / nn + 2 / nn / nn) * my * my; r.aux[0] = sqrtl(s / sig) * t0 - lp * sqrtl(sig) * my / (sqrtl(M) * sqrtl(M + my * my)); r.aux[1] = sqrtl(s / sig) * f.b[2] / f.se[2] - lp * sqrtl(sig) * (0.5L * my - mty) / (sqrtl(M / 12) * sqrtl(myybar)); }
  else r.aux[0] = sqrtl(s / sig) * t0 - lp * sqrtl(sig) * my / (sqrtl(myy) * sqrtl(myybar));
  r.stat = tau ? sqrtl(s / sig) * tst - lp * sqrtl(sig) / sqrtl(M) : nn * (f.b[1] - 1) - lam / M; if (!(M > 0)) return r;
  r.tol = ols::amp(f) + 1e-13 * (double)(myy / M) * (trend ? 10 : 1); r.ok = true; return r;
}
struct KP { bool ok = false; LD stat = 0; double tol = 0; };
static KP kpss(const Vec &y, bool trend, int l) { KP k; int n = y.size(); std::vector<LVec> X{ols::ones(n)}; if (trend) { LVec t(n); for (int i = 0; i < n; i++) t[i] = i + 1; X.push_back(t); } auto f = ols::fit(X, LVec(y.begin(), y.end())); if (!f.ok) return k; LD c = 0, eta = 0; for (LD v : f.res) { c += v; eta += c * c; } LD s2 = lrv(f.res, l); if (!(s2 > 1e-9L * f.rss / n)) return k; k.stat = eta / n / n / s2; k.tol = 1e-10 * n + ols::amp(f) * (double)(f.rss / n / s2) * n; k.ok = true; return k; }
static double kpssp(bool trend, double st) { static const double L[4] = {0.347, 0.463, 0.574, 0.739}, T[4] = {0.119, 0.146, 0.176, 0.216}, P[4] = {0.10, 0.05, 0.025, 0.01}; return interp(trend ? T : L, P, 4, st); }
static const double CP[3] = {0.01, 0.05, 0.1};
static int row(int n1) { return n1 < 25 ? 0 : n1 < 50 ? 1 : n1 < 100 ? 2 : n1 < 250 ? 3 : n1 < 500 ? 4 : 5; }
static const double *cv2(const std::string &type, int n1) { return type == "none" ? CT1[row(n1)] : type == "drift" ? CT2[row(n1)] : CT3[row(n1)]; }
static void ppcv(bool trend, int n1, double *cv) { double n = n1, n2 = n * n; if (trend) { cv[0] = -3.9638 - 8.353 / n - 47.44 / n2; cv[1] = -3.4126 - 4.039 / n - 17.83 / n2; cv[2] = -3.1279 - 2.418 / n - 7.58 / n2; } else { cv[0] = -3.4335 - 5.999 / n - 29.25 / n2; cv[1] = -2.8621 - 2.738 / n - 8.36 / n2; cv[2] = -2.5671 - 1.438 / n - 4.48 / n2; } }
// OCSB regression at a given lag over observations usable for maxlag m
struct OC { bool ok = false; double tol = 0; LD t = 0, aic = 0, bic = 0, aicc = 0; };
static OC ocsb(const Vec &x, int f, int lag, int m) {
  OC r; Vec fd = dif(x, f), y = dif(fd, 1), d1 = dif(x, 1); int n = (int)y.size() - m; if (n < lag + 6) return r;
  // time index of y[j] is j+f+1; of fd[j] is j+f; of d1[j] is j+1
  LVec yy = sub(y, m, n); std::vector<LVec> lags; for (int i = 1; i <= lag; i++) lags.push_back(sub(y, m - i, n));
  auto X = lags; X.insert(X.begin(), ols::ones(n)); auto a = ols::fit(X, yy); if (!a.ok) return r;
  auto lam = [&](const Vec &v, int j) { LD s = v[j] - a.b[0]; for (int i = 1; i <= lag; i++) s -= a.b[i] * v[j - i]; return s; };
  LVec z4(n), z5(n); for (int i = 0; i < n; i++) { int T = i + m + f + 1; z4[i] = lam(fd, T - 1 - f); z5[i] = lam(d1, T - f - 1); }
  X = lags; X.push_back(z4); X.push_back(z5); auto b = ols::fit(X, yy); if (!b.ok || b.cond > 1e4) return r; r.t = b.b[b.p - 1] / b.se[b.p - 1];
  LD ll = -0.5L * n * (logl(2 * acosl(-1)) + logl(b.rss / n) + 1); r.aic = -2 * ll + 2 * b.p; r.bic = -2 * ll + logl((LD)n) * b.p; r.aicc = r.aic + 2 * b.p * ((LD)n / (n - b.p - 1) - 1);
  r.tol = ols::amp(b) * 10 + ols::amp(a) * 10; r.ok = true; return r;
}
// statistic of OCSBtest: lag order chosen by the criterion among 1..m, test regression with one lag less (fixed: m)
static OC ocsbtest(const Vec &x, int f, int m, const std::string &how) {
  OC r; int L = m; double gap = 1e9;
  if (how != "fixed" && m > 0) { LD best = 1e300L, second = 1e300L; for (int l = 1; l <= m; l++) { OC o = ocsb(x, f, l, m); if (!o.ok) return r; LD ic = how == "aic" ? o.aic : how == "bic" ? o.bic : o.aicc; if (ic < best) { second = best; best = ic; L = l - 1; } else second = std::min(second, ic); } gap = (double)(second - best); }
  if (gap < 1e-6) return r; return ocsb(x, f, L, L);
}
static double ocsbcrit(int f) { double l = std::log((double)f) - 0.7656451; return -0.2937411 * std::exp(-0.2850853 * l - 0.05983644 * l * l) - 1.652202; }
static bool isconst(const Vec &x) { for (double v : x) if (std::fabs(v - x[0]) > 1e-9 * (1 + std::fabs(x[0]))) return false; return true; }

void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int N = r.chance(0.15) ? r.irange(20, 40) : r.chance(0.05) ? r.irange(500, 1500) : r.irange(30, 400); std::string nm;
  int f = r.chance(0.6) ? r.pick(std::vector<int>{2, 3, 4, 5, 6, 7, 12}) : 0; Vec x = gen::series(r, N, f, &nm);
  if (r.chance(0.15)) x = gen::integrate(x, 1, 0); if (f && r.chance(0.25)) x = gen::integrate(x, f, 0);
  { double mu = 0, sd = 0; for (double v : x) mu += v / N; for (double v : x) sd += (v - mu) * (v - mu) / N; sd = std::sqrt(sd); if (sd > 0) { double b = std::pow(10.0, r.range(-0.5, 1)), a = r.chance(0.4) ? 0 : b * r.range(-5, 5); for (auto &v : x) v = a + b * (v - mu) / sd; } }
  c.mixv(x); c.nontrivial(); In xi(x, "series"); char d[160]; snprintf(d, sizeof d, "%s N=%d f=%d", nm.c_str(), N, f);
  auto st = [&](const char *key, double got, LD want, double tol, const char *w) { if (tol > 1e-3) { c.inconclusive(key); return false; } return c.ok(std::fabs(got - (double)want) <= (1e-7 + tol) * (1 + std::fabs((double)want)), key, "%s %s got %.12g want %.12Lg tol %g", d, w, got, want, tol); };
  char w[160];
  { // KPSS
    bool tr = r.chance(0.5); int sh = r.irange(0, 1), lag = r.chance(0.4) ? r.irange(1, 12) : -1, useNull = r.chance(0.3), kl = useNull ? 0 : lag, want = (!useNull && lag > 0) ? lag : shortlag(N, sh); double s = NAN, p = NAN;
    ur_kpss(xi, N, tr ? "trend" : "level", sh, useNull ? NULL : &kl, &s, &p); c.out(s); c.out(p); KP k = kpss(x, tr, want); snprintf(w, sizeof w, "kpss %s lag %d", tr ? "trend" : "level", want);
    if (k.ok && st("kpss:statistic", s, k.stat, k.tol, w)) { c.ok(std::fabs(p - kpssp(tr, s)) < 1e-9, "kpss:pvalue", "%s %s stat %.10g p %.10g want %.10g", d, w, s, p, kpssp(tr, s)); if (!useNull) c.ok(kl == want, "kpss:lag", "%s %s reported lag %d", d, w, kl); c.ok(p >= 0.01 && p <= 0.10, "kpss:pvalue-range", "%s p=%g", d, p); }
  }
  { // augmented Dickey-Fuller with trend
    int lag = r.irange(0, 6), useNull = r.chance(0.3), kl = lag; if (useNull) lag = (int)std::pow(N - 1.0, 1.0 / 3.0); bool ex = r.chance(0.3); double s = NAN, p = NAN;
    ur_df(xi, N, ex ? "explosive" : "stationary", useNull ? NULL : &kl, &s, &p); c.out(s); c.out(p); DF o = df2(x, lag, "trend", "fixed"); snprintf(w, sizeof w, "adf lag %d", lag);
    if (o.ok && st("adf:statistic", s, o.tau, o.tol, w)) { double pw = ptab(TT, N - 1, s); if (ex) pw = 1 - pw; c.ok(std::fabs(p - pw) < 1e-9, "adf:pvalue", "%s %s %s stat %.10g p %.10g want %.10g", d, w, ex ? "explosive" : "stationary", s, p, pw); if (!useNull) c.ok(kl == lag, "adf:lag", "%s reported lag %d of %d", d, kl, lag); }
  }
  { // Phillips-Perron with trend
    bool al = r.chance(0.5), ex = r.chance(0.3); int sh = r.irange(0, 1), lag = r.chance(0.4) ? r.irange(1, 10) : -1, kl = lag, n = N - 1, l = lag > 0 ? lag : shortlag(n, sh); double s = NAN, p = NAN;
    ur_pp(xi, N, ex ? "explosive" : "stationary", al ? "Z(alpha)" : "Z(t_alpha)", sh, &kl, &s, &p); c.out(s); c.out(p); snprintf(w, sizeof w, "pp %s lag %d", al ? "alpha" : "t", l);
    LVec yt = sub(x, 1, n), y1 = sub(x, 0, n), tt(n); for (int i = 0; i < n; i++) tt[i] = i + 1 - n / 2.0L; auto F = ols::fit({ols::ones(n), tt, y1}, yt);
    if (F.ok) { LD su = F.rss / n, sl = lrv(F.res, l), S1 = 0, S2 = 0, S3 = 0, nn = n; for (int i = 0; i < n; i++) { S1 += y1[i]; S2 += y1[i] * y1[i]; S3 += y1[i] * (i + 1); } LD D = nn * nn * (nn * nn - 1) * S2 / 12 - nn * S3 * S3 + nn * (nn + 1) * S3 * S1 - nn * (nn + 1) * (2 * nn + 1) * S1 * S1 / 6, n3 = nn * nn * nn;
      LD want = al ? nn * (F.b[2] - 1) - n3 * n3 / (24 * D) * (sl - su) : sqrtl(su / sl) * (F.b[2] - 1) / F.se[2] - n3 / (4 * sqrtl(3.0L) * sqrtl(D) * sqrtl(sl)) * (sl - su);
      double tol = ols::amp(F) * (al ? n : 1) * (1 + (double)(su / sl)) + 1e-14 * (double)(nn * nn * nn * nn * S2 / 12 / D) * (double)(1 + su / sl) * 10;
      if (sl > 1e-6L * su && D > 0 && st("pp:statistic", s, want, tol, w)) { double pw = ptab(al ? TA : TT, n, s); if (ex) pw = 1 - pw; c.ok(std::fabs(p - pw) < 1e-9, "pp:pvalue", "%s %s stat %.10g p %.10g want %.10g", d, w, s, p, pw); c.ok(kl == l, "pp:lag", "%s reported lag %d of %d", d, kl, l); } }
  }
  { // urca style ADF
    static const char *ty[3] = {"none", "drift", "trend"}, *se[3] = {"fixed", "aic", "bic"}; const char *t = ty[r.irange(0, 2)], *s = se[r.irange(0, 2)]; int lag = r.irange(0, 5), kl = lag, useNull = r.chance(0.15), cr = -1, cc = -1, lt = -1; if (useNull) lag = 1;
    Out cv(9, "cval"), cp(3, "cprobs"), ts(3, "teststat"); ts.fill(NAN); cv.fill(NAN);
    ur_df2(xi, N, t, useNull ? NULL : &kl, s, cv, &cr, &cc, cp, ts, &lt); c.outv(ts, 3); int k = !strcmp(t, "none") ? 1 : !strcmp(t, "drift") ? 2 : 3; snprintf(w, sizeof w, "df2 %s lag %d %s", t, lag, s);
    c.ok(lt == k && cr == k && cc == 3, "df2:shape", "%s %s counts %d %d %d", d, w, lt, cr, cc); DF o = df2(x, lag, t, s);
    if (o.ok && o.gap > 1e-5) { bool g = st("df2:tau", ts[0], o.tau, o.tol, w); if (k > 1) g = g && st("df2:phi", ts[1], o.phiA, o.tol * 10, w); if (k > 2) g = g && st("df2:phi3", ts[2], o.phiB, o.tol * 10, w); }
    else if (o.gap <= 1e-5) c.hit("df2:tie");
    int R = row(N - 1); const double *want[3] = {k == 1 ? CT1[R] : k == 2 ? CT2[R] : CT3[R], k == 2 ? CP1[R] : CP2[R], CP3[R]};
    for (int i = 0; i < k; i++) for (int j = 0; j < 3; j++) c.ok(cv[3 * i + j] == want[i][j], "df2:critical-value", "%s %s cval[%d][%d]=%g want %g", d, w, i, j, cv[3 * i + j], want[i][j]);
    for (int j = 0; j < 3; j++) c.ok(cp[j] == CP[j], "df2:probabilities", "%s cprobs[%d]=%g", d, j, cp[j]);
  }
  { // urca style Phillips-Perron
    bool tau = r.chance(0.6), tr = r.chance(0.5); int sh = r.irange(0, 1), lag = r.chance(0.4) ? r.irange(1, 10) : -1, useNull = r.chance(0.3), kl = lag, la = -1, l = (!useNull && lag > 0) ? lag : shortlag(N - 1, sh); Out cv(3, "cval"), cp(3, "cprobs"), ax(2, "auxstat"); double s = NAN; ax.fill(NAN);
    ur_pp2(xi, N, tau ? "Z-tau" : "Z-alpha", tr ? "trend" : "constant", sh, useNull ? NULL : &kl, cv, cp, ax, &la, &s); c.out(s); snprintf(w, sizeof w, "pp2 %s %s lag %d", tau ? "tau" : "alpha", tr ? "trend" : "constant", l);
    PP2 o = pp2(x, tau, tr, l); c.ok(la == (tr ? 2 : 1), "pp2:shape", "%s %s laux %d", d, w, la);
    if (o.ok) { bool g = st("pp2:statistic", s, o.stat, o.tol * (tau ? 1 : N), w); g = g && st("pp2:aux", ax[0], o.aux[0], o.tol * 10, w); if (tr) g = g && st("pp2:aux", ax[1], o.aux[1], o.tol * 10, w); }
    double pc[3]; ppcv(tr, N - 1, pc); if (tau) for (int j = 0; j < 3; j++) c.ok(std::fabs(cv[j] - pc[j]) < 1e-9, "pp2:critical-value", "%s %s cval[%d]=%.10g want %.10g", d, w, j, cv[j], pc[j]);
    for (int j = 0; j < 3; j++) c.ok(cp[j] == CP[j], "pp2:probabilities", "%s cprobs[%d]=%g", d, j, cp[j]);
  }
  { // number of differences
    static const char *te[3] = {"kpss", "df", "pp"}; const char *t = te[r.irange(0, 2)]; bool tr = r.chance(0.3); int md = r.irange(0, 3), useNull = r.chance(0.2); double a = r.range(0.005, 0.12), ae = useNull ? 0.05 : std::min(0.1, std::max(0.01, a)); int mdu = useNull ? 2 : md;
    int g = ndiffs(xi, N, useNull ? NULL : &a, t, tr ? "trend" : "level", useNull ? NULL : &md); c.outi(g); c.ok(g >= 0 && g <= mdu, "ndiffs:range", "%s ndiffs %s gave %d of %d", d, t, g, mdu);
    Vec y = x; int want = -1, dd = 0; bool amb = false;
    for (;; dd++) { if (dd > 0) y = dif(y, 1); if (isconst(y)) { want = dd; break; } double p = NAN, tol = 1; int n = y.size(); if (n < 20) { amb = true; break; }
      bool rej = false; double edge = 1e9;
      if (t[0] == 'k') { KP k = kpss(y, tr, (int)(3.0 * std::sqrt((double)n) / 13.0)); if (!k.ok) { amb = true; break; } p = kpssp(tr, (double)k.stat); tol = k.tol; rej = p < ae; }
      else if (t[0] == 'd') { DF o = df2(y, 1, tr ? "trend" : "drift", "fixed"); if (!o.ok) { amb = true; break; } p = interp(cv2(tr ? "trend" : "drift", n - 1), CP, 3, (double)o.tau); tol = o.tol; rej = p > ae; }
      else { PP2 o = pp2(y, true, tr, shortlag(n - 1, 1)); if (!o.ok) { amb = true; break; } double pc[3]; ppcv(tr, n - 1, pc); p = interp(pc, CP, 3, (double)o.stat); tol = o.tol; rej = p > ae; }
      bool sat = p == 0.01 || p == 0.1;  // saturated p-values do not move
      edge = std::fabs(p - ae); if ((edge < 1e-5 && !(sat && edge == 0)) || tol > 1e-4) { amb = true; break; }
      if (!rej || dd >= mdu) { want = dd; break; } }
    if (amb) c.hit("ndiffs:ambiguous"); else { { char hb[64]; snprintf(hb, sizeof hb, "ndiffs:%s:%d", t, (int)want); c.hit(hb); } c.ok(g == want, "ndiffs:order", "%s ndiffs %s %s alpha %g max %d gave %d want %d", d, t, tr ? "trend" : "level", ae, mdu, g, want); }
  }
  if (f > 1 && N >= 3 * f + 12) {
    static const char *me[4] = {"aic", "bic", "aicc", "fixed"}; const char *m = me[r.irange(0, 3)]; int ml = r.irange(!strcmp(m, "fixed") ? 0 : 1, 3); double s = NAN, cr = NAN;
    OCSBtest(xi, N, f, ml, m, &s, &cr); c.out(s); c.out(cr); OC o = ocsbtest(x, f, ml, m); snprintf(w, sizeof w, "ocsb %s lags %d", m, ml);
    if (o.ok) { c.hit("ocsb"); st("ocsb:statistic", s, o.t, o.tol, w); } else c.hit("ocsb:ambiguous");
    c.ok(std::fabs(cr - ocsbcrit(f)) < 1e-9, "ocsb:critical", "%s crit %.10g want %.10g", d, cr, ocsbcrit(f));
    // seasonal strength of a decomposition
    int np = r.chance(0.5) ? 1 : r.irange(2, 3), ff[3], f2[3], ns = np; ff[0] = f; for (int k = 1; k < np; k++) ff[k] = r.chance(0.1) ? N / 2 + r.irange(0, 5) : r.irange(2, std::max(2, N / 3)); if (np > 1 && r.chance(0.5)) std::swap(ff[0], ff[np - 1]);
    std::memcpy(f2, ff, sizeof ff); Out s0(N, "seasonal"), s1(N, "seasonal"), s2(N, "seasonal"), tr(N, "trend"), re(N, "remainder"), sh(np, "strength"); double *sp[3] = {s0.p, s1.p, s2.p}; for (int k = 0; k < 3; k++) for (int i = 0; i < N; i++) sp[k][i] = 0;
    SHtest(xi, N, f2, np, sh); for (int k = 0; k < np; k++) c.out(sh[k]); mstl(xi, N, ff, &ns, NULL, NULL, NULL, sp, tr, re); c.ok(ns >= 0 && ns <= np, "seasonal-strength:periods", "%s %d of %d periods", d, ns, np); { char hb[40]; snprintf(hb, sizeof hb, "strength:%dof%d", ns, np); c.hit(hb); }
    for (int k = 0; k < np; k++) { c.ok(sh[k] >= 0 && sh[k] <= 1, "seasonal-strength:range", "%s strength %d is %g", d, k, sh[k]); if (ns == 0) continue; if (k >= ns) { c.ok(sh[k] == 0, "seasonal-strength:unused", "%s period %d of %d usable has strength %g", d, k, ns, sh[k]); continue; }
      auto var_ = [&](bool both) { LD mu = 0, q2 = 0; for (int i = 0; i < N; i++) mu += re[i] + (both ? sp[k][i] : 0); mu /= N; for (int i = 0; i < N; i++) { LD e = re[i] + (both ? sp[k][i] : 0) - mu; q2 += e * e; } return q2; }; LD v1 = var_(true); if (v1 > 0) { LD wv = std::min<LD>(1, std::max<LD>(0, 1 - var_(false) / v1)); c.ok(std::fabs(sh[k] - (double)wv) < 1e-8, "seasonal-strength", "%s SHtest component %d of %d is %.12g want %.12Lg", d, k, ns, sh[k], wv); } }
    // seasonal differences
    bool oc = r.chance(0.5); int mD = r.irange(0, 2), un = r.chance(0.3), mu = un ? 1 : mD; double a05 = 0.05; int g = nsdiffs(xi, N, f, un ? NULL : &a05, oc ? "ocsb" : "seas", un ? NULL : &mD); c.outi(g); c.ok(g >= 0 && g <= mu, "nsdiffs:range", "%s nsdiffs gave %d of %d", d, g, mu);
    Vec y = x; int want = -1, D = 0; bool amb = false;
    for (;; D++) { if (D > 0) y = dif(y, f); if (D > 0 && (isconst(y) || (int)y.size() < 2 * f || D >= mu)) { want = D; break; } int n = y.size(); if (n < 3 * f + 12) { amb = true; break; }
      bool rej; if (oc) { OC q = ocsbtest(y, f, 3, "aic"); if (!q.ok || std::fabs((double)q.t - ocsbcrit(f)) < 1e-4 || q.tol > 1e-5) { amb = true; break; } rej = (double)q.t > ocsbcrit(f); }
      else { In yi(y, "series"); int g1 = f; double q = NAN; SHtest(yi, n, &g1, 1, &q); if (std::fabs(q - 0.64) < 1e-5) { amb = true; break; } rej = q > 0.64; }
      if (!rej || D >= mu) { want = D; break; } }
    if (amb) c.hit("nsdiffs:ambiguous"); else { { char hb[64]; snprintf(hb, sizeof hb, "nsdiffs:%s:%d", oc ? "ocsb" : "seas", (int)want); c.hit(hb); } c.ok(g == want, "nsdiffs:order", "%s nsdiffs %s max %d gave %d want %d", d, oc ? "ocsb" : "seas", mu, g, want); }
    if (r.chance(0.3)) { int ro = -1, co = -1; double *q = seasdummy(xi, N, f, &ro, &co); c.ok(ro == f - 1 && co == N, "seasdummy:shape", "%s %d x %d", d, ro, co);
      for (int i = 0; i < f - 1; i++) for (int t = 0; t < N; t++) { LD an = 2 * acosl(-1) * (i / 2 + 1) * (t + 1) / f, v = i % 2 ? sinl(an) : cosl(an); if (!c.ok(std::fabs(q[i * N + t] - (double)v) < 1e-9, "seasdummy", "%s dummy %d at %d is %.10g want %.10Lg", d, i, t, q[i * N + t], v)) { i = f; break; } } vf_lib_free(q); }
  }
  if (c.idx % 401 == 3) c.sample("%s all statistics compared", d);
}
