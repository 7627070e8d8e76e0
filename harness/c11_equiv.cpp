// C11: equivalent specifications agree; rescaling and shifting the series act as they must.
#include "pair.h"
const char *vf_driver_name = "c11_equiv";
using namespace fit;
static void compare(vf::Ctx &c, const char *rel, const char *d, const Fc &a, const Fc &b, double A, double C, int L) {
  // expected: b = a transformed by y -> C + A*y
  const Spec &sp = a.m.sp; int n = a.m.sp.ncoef(), N = sp.Nused(), na = sp.p + sp.q + sp.P + sp.Q;
  if (!identified(a.m) || !identified(b.m)) { c.hit("skip:unidentified"); return; }
  c.nontrivial();
  char key[96]; double wantll = a.m.loglik - N * log(std::fabs(A));
  if (sp.method == 2 && sp.kind != b.m.sp.kind) wantll = b.m.loglik;   // CSS likelihoods of different front ends condition alike, checked through coefficients
  double tl = 0.12; snprintf(key, sizeof key, "%s:loglik", rel);
  auto se = [&](int i) { double v = a.vc[i * n + i]; return v > 0 ? sqrt(v) : 0.0; };
  auto dbl = [](const Vec &v) { return v.size() == 2 && std::fabs(v[0] * v[0] + 4 * v[1]) < 0.02; };
  if (dbl(a.m.theta) || dbl(a.m.THETA) || dbl(b.m.theta) || dbl(b.m.THETA)) { c.hit("skip:double-root"); return; }
  for (int i = 0; i < n; i++) if (!(a.vc[i * n + i] > 0) || !(b.vc[i * n + i] > 0)) { c.hit("skip:indefinite-hessian"); return; }
  LVec pa = pack(a.m), pb = pack(b.m);
  { bool far = !(std::fabs(b.m.loglik - wantll) <= tl); for (int i = 0; i < na; i++) far |= std::fabs((double)(pa[i] - pb[i])) > 0.15 * se(i) + 1e-4;
    if (far && local_opt(a) && local_opt(b)) { c.hit("skip:another-local-optimum"); return; } }
  if (!c.ok(std::fabs(b.m.loglik - wantll) <= tl, key, "%s loglik %.9g expected %.9g", d, b.m.loglik, wantll)) return;
  for (int i = 0; i < na; i++) if (!(se(i) < 0.35)) { c.hit("skip:flat"); return; }
  snprintf(key, sizeof key, "%s:arma-coefficients", rel);
  for (int i = 0; i < na; i++) if (!c.ok(std::fabs((double)(pa[i] - pb[i])) <= 0.15 * se(i) + 1e-4, key, "%s coefficient %d: %.9Lg and %.9Lg (se %.3g)", d, i, pa[i], pb[i], se(i))) return;
  if (sp.hasmean()) { double w = C + A * a.m.mean, s = std::fabs(A) * se(na); snprintf(key, sizeof key, "%s:mean", rel); c.ok(std::fabs(b.m.mean - w) <= 0.5 * s + 1e-7 * std::fabs(C), key, "%s mean %.10g expected %.10g (se %.3g)", d, b.m.mean, w, s); }
  for (int j = 0; j < sp.r; j++) { int i = na + (sp.hasmean() ? 1 : 0) + j; double w = A * a.m.exog[j], s = std::fabs(A) * se(i); snprintf(key, sizeof key, "%s:exog", rel); c.ok(std::fabs(b.m.exog[j] - w) <= 0.5 * s, key, "%s exog[%d] %.10g expected %.10g (se %.3g)", d, j, b.m.exog[j], w, s); }
  double vr = 1; if (sp.method == 2) { int nc = sp.p + sp.s * sp.P; auto den = [&](Kind k) { return (double)(k == SARIMAX ? N - nc : N); }; vr = den(sp.kind) / den(b.m.sp.kind); }   // divisor conventions of the conditional fits
  snprintf(key, sizeof key, "%s:variance", rel); c.ok(std::fabs(b.m.var - vr * A * A * a.m.var) <= 0.005 * A * A * a.m.var, key, "%s var %.9g expected %.9g", d, b.m.var, A * A * a.m.var);
  snprintf(key, sizeof key, "%s:forecast", rel);
  for (int h = 0; h < L; h++) { double w = C + A * a.x[h], s = std::fabs(A) * sqrt(a.v[h]); if (!c.ok(std::fabs(b.x[h] - w) <= 0.05 * s + (sp.hasmean() ? 0.5 * std::fabs(A) * se(na) : 0) + 1e-9 * std::fabs(C), key, "%s xpred[%d] %.10g expected %.10g (se %.3g)", d, h, b.x[h], w, s)) break; }
  snprintf(key, sizeof key, "%s:mse", rel);
  for (int h = 0; h < L; h++) { double w = A * A * a.v[h]; if (!c.ok(std::fabs(b.v[h] - w) <= 0.05 * w, key, "%s amse[%d] %.10g expected %.10g", d, h, b.v[h], w)) break; }
  snprintf(key, sizeof key, "%s:standard-errors", rel);
  for (int i = 0; i < n; i++) { double k = i < na ? 1 : std::fabs(A), s = k * se(i), g = sqrt(std::max(0.0, b.vc[i * n + i])); if (!c.ok(std::fabs(g - s) <= (na <= 2 ? 0.15 : na == 3 ? 0.5 : 3.0) * s, key, "%s se[%d] %.9g expected %.9g", d, i, g, s)) break; }
  if (c.idx % 97 == 3) c.sample("%s: %s loglik %.7g / %.7g, first forecast %.7g / %.7g", rel, d, a.m.loglik, b.m.loglik, a.x[0], b.x[0]);
}
static void judge(vf::Ctx &c, int k) {
  vf::Rng &r = c.rng; GenOpt o; o.methods = 7; o.match = 1; o.allopts = false; o.nmin = 90; o.nmax = 200; o.maxp = 2; o.maxq = 2; o.smax = 6;
  Spec sp; do { sp = random_spec(c, o); } while (sp.p + sp.q > 3 || (sp.P && sp.Q && sp.p + sp.q > 1)); jitter(sp.y, k);
  int L = r.irange(1, 10); Vec nx(sp.r * L); for (auto &v : nx) v = r.norm();
  char d[220]; sp.describe(d, sizeof d);
  Fc a, b; bool oka = fitall(sp, L, nx, a);
  int what = r.irange(0, 2); char t[64];
  if (what == 0) {
    // the same model through another front end
    Spec s2 = sp; bool seas = sp.P + sp.D + sp.Q > 0;
    if (sp.kind == ARIMA) { s2.kind = r.chance(0.5) ? SARIMA : SARIMAX; if (s2.kind == SARIMA) s2.s = r.irange(2, 12); s2.imean = 1; }
    else if (sp.kind == SARIMA) s2.kind = (!seas && r.chance(0.5)) ? ARIMA : SARIMAX;
    else { if (sp.r || (sp.imean == 0 && sp.d + sp.D == 0)) { c.hit("skip:no-equivalent"); return; } s2.kind = (!seas && r.chance(0.5)) ? ARIMA : SARIMA; if (s2.kind == SARIMA && !s2.s) s2.s = r.irange(2, 12); }
    if (s2.kind == ARIMA) s2.s = 0;
    bool okb = fitall(s2, L, nx, b); snprintf(t, sizeof t, "%s=%s:%d%d", kname[sp.kind], kname[s2.kind], oka, okb); c.hit(t);
    if (VF_NO_ORACLE || !oka || !okb) return;
    c.mix(sp.hash()); c.mixv(sp.y); c.mix(s2.kind);
    char rel[64]; snprintf(rel, sizeof rel, "same-model:%s-%s", kname[std::min(sp.kind, s2.kind)], kname[std::max(sp.kind, s2.kind)]);
    compare(c, rel, d, a, b, 1, 0, L);
  } else {
    double A = 1, C = 0, sd = 0; { double m = 0; for (double v : sp.y) m += v / sp.N; for (double v : sp.y) sd += (v - m) * (v - m) / sp.N; sd = sqrt(sd); }
    if (what == 1) { A = std::pow(10.0, r.range(-2, 2)); if (r.chance(0.3)) A = -A; }
    else { if (sp.d + sp.D == 0 && !sp.hasmean()) { c.hit("skip:no-mean"); return; } C = r.range(-30, 30) * sd; }
    Spec s2 = sp; for (auto &v : s2.y) v = C + A * v;
    bool okb = fitall(s2, L, nx, b); snprintf(t, sizeof t, "%s:%s:%d%d", what == 1 ? "scale" : "shift", kname[sp.kind], oka, okb); c.hit(t);
    if (VF_NO_ORACLE || !oka || !okb) return;
    c.mix(sp.hash()); c.mixv(sp.y); c.mixd(A); c.mixd(C);
    char rel[64]; snprintf(rel, sizeof rel, "%s:%s", what == 1 ? "scale" : "shift", kname[sp.kind]);
    compare(c, rel, d, a, b, A, C, L);
  }
}
void run_case(vf::Ctx &c) { vf::confirmed(c, [&](int k) { judge(c, k); }); }
