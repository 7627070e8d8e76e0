// C20: Box-Cox transform, inverse and the choice of lambda.
#include "vf.h"
#include "gen.h"
extern "C" {
#include "ctsa.h"
#include "boxcox.h"
}
typedef long double LD;
const char *vf_driver_name = "c20_boxcox";
static LD tr(LD x, LD l) { if (x <= 0) return l > 0 ? -1 / l : -INFINITY; return l == 0 ? logl(x) : expm1l(l * logl(x)) / l; }
// profile log-likelihood of lambda (concave: the variance is a sum of log-convex functions of lambda)
static LD prof(const Vec &x, LD l) { int n = x.size(); LD s = 0, m = 0, v = 0; std::vector<LD> y(n); for (int i = 0; i < n; i++) s += logl((LD)x[i]); LD um = s / n; for (int i = 0; i < n; i++) { LD u = logl((LD)x[i]) - um; y[i] = l == 0 ? u : expm1l(l * u) / l; m += y[i] / n; } for (LD a : y) v += (a - m) * (a - m) / n; return (l - 1) * s - n / 2.0L * (logl(v) + 2 * l * um); }
static Vec positive(vf::Rng &r, int N, std::string *nm) {
  int per = r.chance(0.3) ? r.irange(2, 12) : 0; Vec x = gen::series(r, N, per, nm); double m = 0, v = 0; for (double a : x) m += a / N; for (double a : x) v += (a - m) * (a - m) / N; double sd = std::sqrt(v) + 1e-9;
  switch (r.irange(0, 3)) {
    case 0: { double k = std::pow(10.0, r.range(-2, 0.3)); for (auto &a : x) a = std::exp(std::max(-20.0, std::min(20.0, k * (a - m) / sd))); break; }       // log-normal like
    case 1: { double c = r.range(1, 40), lo = 1e9; for (auto &a : x) { a = (a - m) / sd; lo = std::min(lo, a); } for (auto &a : x) a += c - std::min(0.0, lo) * 1.01; break; }
    case 2: { double p = r.range(0.3, 3); for (auto &a : x) a = std::pow(0.05 + std::fabs((a - m) / sd), p); break; }
    default: { for (auto &a : x) a = 1 + std::floor(std::fabs(a) * r.range(1, 20)); break; }   // counts
  }
  double s = std::pow(10.0, r.range(-3, 4)); if (r.chance(0.7)) for (auto &a : x) a *= s; return x; }
void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int N = r.chance(0.15) ? r.irange(2, 12) : r.irange(12, 300); std::string nm; Vec x = positive(r, N, &nm);
  static const double specials[] = {0, 1, -1, 0.5, 2, -2, 1.0 / 3, 1e-3, -1e-3, 1e-8, -1e-8, 1e-12, 1e-17, 1e-18, -1e-19, 3, 1e-5, -1e-5};
  double lam = r.chance(0.4) ? specials[r.irange(0, 17)] : r.range(-2, 2);
  bool zero = lam > 0.01 && r.chance(0.15); if (zero) x[r.irange(0, N - 1)] = 0.0;
  c.mixv(x); c.mixd(lam); c.nontrivial(); char d[100]; snprintf(d, sizeof d, "%s N=%d lambda=%.9g%s", nm.c_str(), N, lam, zero ? " zero" : "");
  bool constant = true; for (double v : x) constant = constant && v == x[0];
  In xi(x, "series");
  c.ok(checkConstant(xi, N) == (int)constant, "checkConstant", "%s", d);
  auto tol = [&](LD v, LD w) { LD u = v > 0 ? fabsl(logl(v)) : 0; return 4e-15L * (1 + fabsl(lam) * u) * (fabsl(w) + fabsl(u) * (v > 0 ? expl(std::max(-700.0L, std::min(700.0L, (LD)lam * logl(v)))) : 0)) + 1e-300L; };
  Out y(N, "transformed"); boxcox_eval(xi, N, lam, y); c.outv(y, N);
  for (int i = 0; i < N; i++) { LD w = tr(x[i], lam); if (!c.ok(fabsl(y[i] - w) <= tol(x[i], w), "transform", "%s x=%.17g got %.17g want %.17Lg", d, x[i], y[i], w)) break; }
  // strictly increasing wherever the exact values are distinguishable
  { std::vector<int> o(N); for (int i = 0; i < N; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return x[a] < x[b]; });
    for (int i = 1; i < N; i++) { int a = o[i - 1], b = o[i]; LD wa = tr(x[a], lam), wb = tr(x[b], lam); bool sep = wb - wa > tol(x[a], wa) + tol(x[b], wb); c.hit(sep ? "separated" : "not-separated");
      if (!c.ok(sep ? y[b] > y[a] : y[b] >= y[a] - (double)(tol(x[a], wa) + tol(x[b], wb)), "increasing", "%s x %.17g < %.17g but %.17g, %.17g", d, x[a], x[b], y[a], y[b])) break; } }
  // the inverse recovers the data (error of y amplified by the inverse's slope)
  { Vec yv(y.p, y.p + N); In yi(yv, "transformed"); Out z(N, "inverse"); inv_boxcox_eval(yi, N, lam, z); c.outv(z, N);
    for (int i = 0; i < N; i++) { if (x[i] == 0) { c.ok(z[i] == 0 || std::fabs(z[i]) < std::pow(1e-14, 1 / lam), "inverse:zero", "%s got %.17g", d, z[i]); continue; }
      LD u = logl((LD)x[i]), e = expl(-lam * u); LD rel = 1e-14L * (1 + fabsl(u)) + 1e-14L * (1 + fabsl(lam * u)) * (fabsl(tr(x[i], lam)) * e + fabsl(u)) ; if (fabsl(lam) > 1e-12L) rel += 4e-16L * (1 + fabsl(u)) ; rel += (lam != 0) ? 4e-16L * (1 + e) / fabsl(lam) * std::min(1.0L, fabsl(lam * u)) : 0;
      if (rel > 1e-3) { c.hit("inverse:ill-conditioned"); continue; }
      if (!c.ok(fabsl(z[i] - x[i]) <= 8 * rel * x[i], "inverse", "%s x=%.17g back %.17g (relative %.3Lg)", d, x[i], z[i], fabsl(z[i] - x[i]) / x[i])) break; c.hit("inverse"); } }
  // independent inverse argument
  { Vec t(N); for (auto &v : t) { v = r.norm() * 3; if (lam != 0 && 1 + lam * v < 0.05) v = (0.05 - 1) / lam + std::fabs(v) * (lam > 0 ? 1 : -1); if (lam * v + 1 < 0.05) v = 0; } In ti(t, "transformed"); Out z(N, "inverse"); inv_boxcox_eval(ti, N, lam, z); c.outv(z, N);
    for (int i = 0; i < N; i++) { LD w = lam == 0 ? expl((LD)t[i]) : expl(log1pl((LD)lam * t[i]) / lam); LD lw = lam == 0 ? (LD)t[i] : log1pl((LD)lam * t[i]) / lam; if (lw > 600 || lw < -600) continue; LD cond = fabsl(t[i]) / (1 + lam * t[i]); if (!c.ok(fabsl(z[i] - w) <= 4e-15L * (1 + fabsl(lw) + cond) * w, "inverse:formula", "%s y=%.17g got %.17g want %.17Lg", d, t[i], z[i], w)) break; } }
  if (zero || constant) return;
  // the profile likelihood handed to the optimiser
  LD sl = 0, ml = 0, vl = 0; for (double v : x) ml += logl((LD)v) / N; for (double v : x) { LD u = logl((LD)v) - ml; vl += u * u / N; } LD sd = sqrtl(vl); sl = ml * N;
  auto noise = [&](LD l) { LD mx = 0, mn = INFINITY; for (double v : x) { LD p = expl(l * logl((LD)v)); mx = std::max(mx, p); mn = std::min(mn, p); } if (l == 0) return (LD)N * 1e-14L * (1 + fabsl(ml)) / sd + 1e-14L * fabsl(sl); LD y0 = 0, s2 = 0; for (double v : x) y0 += expm1l(l * (logl((LD)v) - ml)) / l / N; for (double v : x) { LD u = expm1l(l * (logl((LD)v) - ml)) / l - y0; s2 += u * u / N; } s2 *= expl(2 * l * ml); LD e = 2e-15L * (1 + fabsl(l * ml)) * mx / fabsl(l) / sqrtl(s2); return N * (e + e * e) + 1e-13L * (1 + fabsl(l - 1)) * (fabsl(sl) + N); };
  Vec par(N + 1); par[0] = N; for (int i = 0; i < N; i++) par[i + 1] = x[i];
  { In pi(par, "likelihood-data"); for (int k = 0; k < 4; k++) { double l = k == 0 ? lam : k == 1 ? 0.0 : r.range(-2, 2); double g = boxcox_loglik(l, (void *)(double *)pi); c.out(g); LD nz = noise(l); if (!(nz < 1e-2L * N)) { c.hit("loglik:ill-conditioned"); continue; } c.hit("loglik"); c.ok(fabsl(g + prof(x, l)) <= 8 * nz + 1e-10L * N, "loglik", "%s at %.9g got %.12g want %.12Lg (tolerance %.2Lg)", d, l, g, -prof(x, l), 4 * nz); } }
  { Out z(N, "transformed"); double l2 = lam; double g = boxcox(xi, N, &l2, z); c.out(g); c.outv(z, N); c.ok(g == lam && l2 == lam, "given:lambda", "%s returned %.17g", d, g); c.closev("given:transform", z, y, N, 1e-12, 1e-300, "boxcox with a given lambda"); }
  { Out z(N, "transformed"); double g = boxcox(xi, N, NULL, z); c.out(g); c.outv(z, N); c.ok(g >= -2 && g <= 2, "chosen:interval", "%s chose %.17g", d, g);
    for (int i = 0; i < N; i++) { LD w = tr(x[i], g), u = fabsl(logl((LD)x[i])); if (!c.ok(fabsl(z[i] - w) <= 1e-13L * (1 + fabsl(g) * u) * (fabsl(w) + u * expl(g * logl((LD)x[i]))), "chosen:transform", "%s chosen lambda %.12g x=%.17g got %.17g want %.17Lg", d, g, x[i], z[i], w)) break; }
    LD best = prof(x, g), nb = noise(g); if (sd < 1e-9L || !(nb < 1e-2L * N)) { c.hit("chosen:ill-conditioned"); return; }
    for (int k = 0; k < 30; k++) { double l = k < 17 ? -2 + 0.25 * k : std::max(-2.0, std::min(2.0, g + (k % 2 ? 1 : -1) * std::pow(10.0, -1 - (k - 17) / 3.0))); LD nz = noise(l); if (!(nz < 1e-2L * N)) continue; LD p = prof(x, l);
      if (!c.ok(p <= best + 20 * (nz + nb) + 1e-7L * N, "chosen:maximum", "%s chosen %.12g has log-likelihood %.12Lg but %.12g has %.12Lg", d, g, best, l, p)) break; }
    c.hit(g < -1.99 || g > 1.99 ? "chosen:at-border" : "chosen:interior");
    if (c.idx % 211 == 3) c.sample("%s chosen lambda %.6g loglik %.6Lg", d, g, best);
  }
}
