// C29: accuracy measures, filters, interpolation and the super smoother.
#include "vf.h"
#include "gen.h"
#include "arma.h"
extern "C" {
#include "ctsa.h"
#include "errors.h"
#include "filter.h"
#include "talg.h"
}
const char *vf_driver_name = "c29_filters";
typedef long double LD;
static void measures(vf::Ctx &c, vf::Rng &r) {
  int N = r.irange(1, 120), T = r.irange(2, 120); Vec a(N), p(N), t(T); double s = std::pow(10.0, r.range(-4, 6)), off = r.chance(0.4) ? 0 : r.range(-10, 10);
  for (int i = 0; i < N; i++) { a[i] = s * (r.norm() + off); p[i] = r.chance(0.1) ? a[i] : a[i] + s * r.norm() * 0.5; } for (auto &v : t) v = s * r.norm(); 
  bool zeros = r.chance(0.25); if (zeros) for (int k = 0; k < 1 + N / 8; k++) { int i = r.irange(0, N - 1); a[i] = 0; if (r.chance(0.6)) p[i] = 0; }
  c.mixv(a); c.mixv(p); c.nontrivial(); char d[60]; snprintf(d, sizeof d, "N=%d%s", N, zeros ? " with zeros" : "");
  LD m = 0, q = 0, b = 0, ap = 0, mp = 0, den = 0; int cnt = 0; bool inf = false; for (int i = 0; i < N; i++) { LD e = (LD)a[i] - p[i]; m += e; q += e * e; b += fabsl(e); double pe = (a[i] - p[i]) * 100 / a[i]; if (a[i] == 0) { if (p[i] == 0) continue; inf = true; cnt++; continue; } (void)pe; LD z = 100 * e / a[i]; ap += fabsl(z); mp += z; cnt++; }
  for (int i = 1; i < T; i++) den += fabsl((LD)t[i] - t[i - 1]); den /= T - 1;
  In pi(p, "predicted"), ai(a, "actual"), ti(t, "training");
  double scl = 0; for (int i = 0; i < N; i++) scl = std::max(scl, std::max(std::fabs(a[i]), std::fabs(p[i])));
  c.close("me", me(pi, ai, N), (double)(m / N), 1e-13, scl, d); c.close("mse", mse(pi, ai, N), (double)(q / N), 1e-12, 0, d); c.close("rmse", rmse(pi, ai, N), (double)sqrtl(q / N), 1e-12, 0, d); c.close("mae", mae(pi, ai, N), (double)(b / N), 1e-12, 0, d);
  double A = mape(pi, ai, N), P = mpe(pi, ai, N), S = mase(pi, ai, N, ti, T); c.out(me(pi, ai, N)); c.out(mse(pi, ai, N)); c.out(A); c.out(P); c.out(S);
  c.close("mase", S, (double)(b / N / den), 1e-11, 0, d);
  if (cnt == 0) { c.hit("percentage:no-term"); c.ok(A != A && P != P, "mape:undefined", "%s mape %g mpe %g with no defined term", d, A, P); }
  else if (inf) { c.hit("percentage:infinite"); c.ok(std::isinf(A) && A > 0, "mape:infinite", "%s mape %g with a zero actual value", d, A); c.ok(std::isinf(P) || P != P, "mpe:infinite", "%s mpe %g with a zero actual value", d, P); }
  else { c.hit("percentage"); c.close("mape", A, (double)(ap / cnt), 1e-11, 0, d); c.close("mpe", P, (double)(mp / cnt), 1e-11, (double)(ap / cnt), d); }
}
static void filters(vf::Ctx &c, vf::Rng &r) {
  int N = r.irange(2, 150), per = r.chance(0.4) ? r.irange(2, 12) : 0; Vec x = gen::series(r, N, per); if (r.chance(0.5)) gen::affine(x, r.range(-100, 100), std::pow(10.0, r.range(-3, 3))); int W = r.irange(1, N), q = W / 2; double alpha = r.chance(0.1) ? r.irange(0, 1) : r.u();
  c.mixv(x); c.mix(W); c.nontrivial(); char d[60]; snprintf(d, sizeof d, "N=%d window %d", N, W); double sc = 1e-300; for (double v : x) sc = std::max(sc, std::fabs(v)); bool odd = W % 2;
  In xi(x, "signal"); auto at = [&](int i) { return (LD)x[std::max(0, std::min(N - 1, i))]; };
  auto ma = [&](int i) { LD s = 0; for (int k = -q; k <= q; k++) s += at(i + k) * (!odd && std::abs(k) == q ? 0.5L : 1.0L); return s / W; };
  Vec want(N), w2(N); for (int i = 0; i < N; i++) { want[i] = (double)ma(i); w2[i] = i < q || i >= N - q ? x[i] : (double)ma(i); }
  { Out o(N, "smoothed"); mafilter(xi, N, W, o); c.outv(o, N); c.closev("mafilter", o, want.data(), N, 1e-13, sc, d); }
  { Out o(N, "smoothed"); detrend_ma(xi, N, W, o); c.outv(o, N); c.closev("detrend", o, want.data(), N, 1e-13, sc, d); }
  if (N >= 2 * q) { Out o(N, "smoothed"); mafilter2(xi, N, W, o); c.outv(o, N); c.closev("mafilter2", o, w2.data(), N, 1e-13, sc, d); for (int i = 0; i < N; i++) if (i < q || i >= N - q) c.ok(o[i] == x[i], "mafilter2:border", "%s position %d", d, i); c.hit("mafilter2"); }
  { Out o(N, "smoothed"); expfilter(xi, N, alpha, o); c.outv(o, N); LD s = x[0]; Vec e(N); e[0] = x[0]; for (int i = 1; i < N; i++) { s = alpha * (LD)x[i] + (1 - (LD)alpha) * s; e[i] = (double)s; } c.closev("expfilter", o, e.data(), N, 1e-12, sc, d); }
  { Vec wt(W); double s = 0; for (auto &v : wt) { v = r.u() + 0.01; s += v; } for (auto &v : wt) v /= s; In wi(wt, "weights"); Out o(N, "smoothed"); mafilter_wt(xi, N, wi, W, o); c.outv(o, N); Vec e(N); for (int i = 0; i < N; i++) { LD s2 = 0; for (int k = 0; k < W; k++) s2 += wt[k] * at(i - q + k); e[i] = (double)s2; } c.closev("mafilter_wt", o, e.data(), N, 1e-13, sc, d); }
  { c.close("norm2", norm2(xi, N), (double)[&] { LD s = 0; for (double v : x) s += (LD)v * v; return sqrtl(s); }(), 1e-13, 0, d); }
  if (W >= 2 && N - 2 * q >= W) { c.hit("deseason"); Out o(N, "deseasonalised"); deseason_ma(xi, N, W, o); c.outv(o, N);   // seasonal means of the deviations from the moving average, centred
    std::vector<LD> s(W, 0); std::vector<int> n(W, 0); for (int i = q; i < N - q; i++) { s[i % W] += x[i] - ma(i); n[i % W]++; } LD m = 0; for (int k = 0; k < W; k++) { s[k] /= n[k]; m += s[k] / W; } Vec e(N); for (int i = 0; i < N; i++) e[i] = (double)(x[i] - (s[i % W] - m)); c.closev("deseason", o, e.data(), N, 1e-12, sc, d); }
}
static void interp(vf::Ctx &c, vf::Rng &r) {
  int N = r.irange(1, 40), M = r.irange(1, 60); Vec x(N), y(N); double t = r.range(-5, 5), s = std::pow(10.0, r.range(-3, 3)); for (auto &v : x) { t += 0.01 + r.u() * r.range(0, 3); v = t * s; } for (auto &v : y) v = r.norm() * 10; std::vector<int> o(N); for (int i = 0; i < N; i++) o[i] = i; for (int i = N - 1; i > 0; i--) std::swap(o[i], o[r.irange(0, i)]);
  Vec xs(N), ys(N); for (int i = 0; i < N; i++) { xs[i] = x[o[i]]; ys[i] = y[o[i]]; } Vec z(M); for (auto &v : z) { int k = r.irange(0, 5); v = k == 0 ? x[r.irange(0, N - 1)] : k == 1 ? x[0] - s * r.u() : k == 2 ? x[N - 1] + s * r.u() : r.range(x[0], x[N - 1]); } 
  c.mixv(x); c.mixv(y); c.mixv(z); c.nontrivial(); auto want = [&](double v) -> LD { if (v <= x[0]) return y[0]; if (v >= x[N - 1]) return y[N - 1]; int i = std::upper_bound(x.begin(), x.end(), v) - x.begin() - 1; if (v == x[i]) return y[i]; return y[i] + ((LD)y[i + 1] - y[i]) * (((LD)v - x[i]) / ((LD)x[i + 1] - x[i])); };
  In xi(xs, "nodes"), yi(ys, "values"), xo(x, "nodes"), yo(y, "values"); Vec zn = z; int nan = r.chance(0.3) ? r.irange(0, M - 1) : -1; if (nan >= 0) zn[nan] = NAN; In zi(zn, "points"); Out w(M, "interpolated"); approx(xo, yo, N, zi, w, M); c.outv(w, M);
  for (int i = 0; i < M; i++) { double g = interpolate_linear(xi, yi, N, z[i]); c.out(g); bool node = false; for (int k = 0; k < N; k++) if (z[i] == x[k]) node = true; if (node) { c.hit("node"); c.ok(g == (double)want(z[i]), "interpolate:node", "N=%d at node %.17g got %.17g want %.17Lg", N, z[i], g, want(z[i])); } if (!c.close("interpolate", g, (double)want(z[i]), 1e-12, 20)) break; if (i == nan) c.ok(w[i] != w[i], "approx:nan", "missing point gave %g", w[i]); else if (!c.close("approx", w[i], (double)want(z[i]), 1e-12, 20)) break; }
  int L = r.irange(2, 50); double lo = r.range(-10, 10), hi = lo + r.range(0, 20); Out g(L, "grid"); linspace(g, L, lo, hi); c.outv(g, L); c.ok(g[0] == lo && g[L - 1] == hi, "linspace:ends", "%g..%g", g[0], g[L - 1]); for (int i = 0; i < L; i++) if (!c.close("linspace", g[i], (double)(lo + ((LD)hi - lo) * i / (L - 1)), 1e-14, 40)) break;
  double mn, mx; arrayminmax(yi, N, &mn, &mx); c.ok(mn == *std::min_element(y.begin(), y.end()) && mx == *std::max_element(y.begin(), y.end()), "minmax", "%g %g", mn, mx);
}
// one running-lines pass evaluated window by window; sets *tie when a branch is too close to call
struct Pass { Vec smo, res; };
static Pass lines(const Vec &x, const Vec &y, const Vec &w, double span, int per, double vs, bool *tie) {
  int n = x.size(), b = (int)(span * .5 * n + .5); if (std::fabs(span * .5 * n + .5 - std::round(span * .5 * n + .5)) < 1e-9) *tie = true; b = std::max(b, 2); Pass P; P.smo.resize(n); P.res.assign(n, 0);
  for (int j = 0; j < n; j++) { LD W = 0, xm = 0, ym = 0, v = 0, cv = 0; int lo, hi; if (per == 2) lo = j - b, hi = j + b; else if (2 * b + 1 >= n) lo = 0, hi = n - 1; else lo = std::max(0, std::min(j - b, n - 1 - 2 * b)), hi = lo + 2 * b;
    auto X = [&](int i) -> LD { return i < 0 ? (LD)x[i + n] - 1 : i >= n ? (LD)x[i - n] + 1 : (LD)x[i]; }; auto I = [&](int i) { return (i + n) % n; };
    for (int i = lo; i <= hi; i++) { W += w[I(i)]; xm += w[I(i)] * X(i); ym += w[I(i)] * (LD)y[I(i)]; } xm /= W; ym /= W; for (int i = lo; i <= hi; i++) { v += w[I(i)] * (X(i) - xm) * (X(i) - xm); cv += w[I(i)] * (X(i) - xm) * ((LD)y[I(i)] - ym); }
    if (fabsl(v - vs) < 1e-7L * vs) *tie = true; LD a = v > vs ? cv / v : 0; P.smo[j] = (double)(a * (x[j] - xm) + ym); LD h = 1 / W; if (v > vs) h += (x[j] - xm) * (x[j] - xm) / v; LD k = 1 - w[j] * h; if (fabsl(k) < 1e-5L) *tie = true; if (k > 0) P.res[j] = (double)(fabsl(y[j] - (a * (x[j] - xm) + ym)) / k); else if (j > 0) P.res[j] = P.res[j - 1]; }
  for (int j = 0; j < n;) { int e = j; while (e + 1 < n && x[e + 1] <= x[e]) e++; if (e > j) { LD s = 0, W = 0; for (int i = j; i <= e; i++) s += (LD)w[i] * P.smo[i], W += w[i]; for (int i = j; i <= e; i++) P.smo[i] = (double)(s / W); } j = e + 1; }
  return P; }
static void super(vf::Ctx &c, vf::Rng &r) {
  int n = r.chance(0.1) ? r.irange(1, 12) : r.irange(12, 200), per = r.chance(0.3) ? 2 : 1; Vec x(n), y(n), w(n, 1.0); bool grid = r.chance(0.3), ties = r.chance(0.25), line = r.chance(0.2), wt = r.chance(0.4); double s = per == 2 ? 1 : std::pow(10.0, r.range(-2, 3));
  for (int i = 0; i < n; i++) x[i] = grid ? (i + 0.5) / n : r.u(); if (ties) for (auto &v : x) v = std::floor(v * std::max(3, n / 3)) / std::max(3, n / 3); std::sort(x.begin(), x.end()); if (r.chance(0.03)) for (auto &v : x) v = x[0]; if (per == 1) { double o = r.chance(0.5) ? 0 : r.range(-3, 3); for (auto &v : x) v = (v + o) * s; }
  double a = r.range(-5, 5), b = r.range(-5, 5), f = r.range(1, 20); for (int i = 0; i < n; i++) y[i] = line ? a + b * x[i] / s : std::sin(f * x[i] / s) + 0.3 * r.norm() + a; if (wt) for (auto &v : w) v = r.range(0.2, 3);
  double span = r.chance(0.5) ? 0 : r.chance(0.1) ? 1 : r.range(0.05, 0.99), alpha = r.chance(0.5) ? -1 : r.range(0, 11);
  int bmax = std::max(2, (int)((span > 0 ? span : 0.5) * .5 * n + .5)); if (per == 2 && 2 * bmax + 1 > n) per = 1;
  c.mixv(x); c.mixv(y); c.mixd(span); c.mixd(alpha); c.nontrivial(); char d[100]; snprintf(d, sizeof d, "n=%d periodic=%d span=%.3g alpha=%.3g%s%s%s", n, per, span, alpha, grid ? " grid" : "", ties ? " ties" : "", wt ? " weights" : "");
  In xi(x, "x"), yi(y, "y"), wi(w, "weights"); Out o(n, "smooth"); supsmu(xi, n, yi, wt ? (double *)wi : NULL, per, span, alpha, o); c.outv(o, n);
  if (!(x[n - 1] > x[0])) { c.hit("one-x"); LD sy = 0, W = 0; for (int i = 0; i < n; i++) sy += (LD)w[i] * y[i], W += w[i]; for (int i = 0; i < n; i++) if (!c.close("supsmu:mean", o[i], (double)(sy / W), 1e-12, 10, d)) return; return; }
  int i0 = std::max(1, n / 4), j0 = std::min(n, 3 * i0); double scale = x[j0 - 1] - x[i0 - 1]; while (!(scale > 0)) { if (j0 < n) j0++; if (i0 > 1) i0--; scale = x[j0 - 1] - x[i0 - 1]; } double q = (double).001f * scale, vs = q * q; bool tie = false; Vec want; const double sp[3] = {.05f, .2f, .5f};
  if (span > 0) { want = lines(x, y, w, span, per, vs, &tie).smo; c.hit(per == 2 ? "fixed:periodic" : "fixed"); }
  else { c.hit(per == 2 ? "auto:periodic" : "auto"); Pass m[3]; Vec rs[3]; for (int k = 0; k < 3; k++) { m[k] = lines(x, y, w, sp[k], per, vs, &tie); rs[k] = lines(x, m[k].res, w, sp[1], per, vs, &tie).smo; }
    Vec best(n); for (int j = 0; j < n; j++) { double rm = 1e20f; int kk = 0; for (int k = 0; k < 3; k++) if (rs[k][j] < rm) rm = rs[k][j], kk = k; for (int k = 0; k < 3; k++) if (k != kk && rs[k][j] - rm < 1e-8 * (1 + std::fabs(rm))) tie = true; best[j] = sp[kk]; if (std::fabs(rm) < 1e-9) tie = true; if (alpha > 0 && alpha <= 10 && rm < rs[2][j] && rm > 0) { c.hit("bass"); best[j] += (sp[2] - best[j]) * std::pow(std::max((double)1e-7f, rm / rs[2][j]), 10 - alpha); } }
    Vec b2 = lines(x, best, w, sp[1], per, vs, &tie).smo, mix(n); for (int j = 0; j < n; j++) { double v = std::max(sp[0], std::min(sp[2], b2[j])), f2 = v - sp[1]; if (f2 >= 0) { f2 /= sp[2] - sp[1]; mix[j] = (1 - f2) * m[1].smo[j] + f2 * m[2].smo[j]; } else { f2 = -f2 / (sp[1] - sp[0]); mix[j] = (1 - f2) * m[1].smo[j] + f2 * m[0].smo[j]; } } want = lines(x, mix, w, sp[0], per, vs, &tie).smo; }
  if (line && per == 1) { bool steep = true; int bl = std::max(2, (int)((span > 0 ? span : sp[0]) * .5 * n + .5)); for (int j = 0; j < n; j++) { int lo = std::max(0, std::min(j - bl, n - 1 - 2 * bl)), hi = std::min(n - 1, lo + 2 * bl); LD W = 0, xm = 0, v = 0; for (int i = lo; i <= hi; i++) W += w[i], xm += (LD)w[i] * x[i]; xm /= W; for (int i = lo; i <= hi; i++) v += w[i] * (x[i] - xm) * (x[i] - xm); steep = steep && v > 1.01L * vs; } if (steep) { c.hit("line"); for (int j = 0; j < n; j++) if (!c.close("supsmu:line", o[j], y[j], 1e-7, 100, d)) break; } }
  if (tie) { c.inconclusive("supsmu:tie"); return; }
  for (int j = 0; j < n; j++) if (!c.ok(std::fabs(o[j] - want[j]) <= 1e-7 * 10, span > 0 ? "supsmu:fixed-span" : "supsmu:variable-span", "%s at %d got %.12g want %.12g", d, j, o[j], want[j])) break;
  if (c.idx % 173 == 3) c.sample("%s smooth[0]=%.9g oracle %.9g", d, o[0], want[0]);
}
void run_case(vf::Ctx &c) { switch (c.idx % 4) { case 0: measures(c, c.rng); break; case 1: filters(c, c.rng); break; case 2: interp(c, c.rng); break; default: super(c, c.rng); } }
