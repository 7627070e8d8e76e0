// C12: regressors enter linearly and additively; dependent regressors are refused.
#include "pair.h"
const char *vf_driver_name = "c12_xreg";
using namespace fit;
static void dependent(vf::Ctx &c) {
  vf::Rng &r = c.rng; GenOpt o; o.kinds[0] = o.kinds[1] = false; o.reg = 1; o.methods = 7; o.allopts = false; o.nmin = 40; o.nmax = 120; o.maxp = 1; o.maxq = 1; o.smax = 5;
  Spec sp = random_spec(c, o); char d[220]; int N = sp.N;
  // append a linear combination of the existing columns (or, with a mean, a constant column)
  Vec col(N, 0.0); const char *how;
  if (sp.hasmean() && r.chance(0.3)) { double v = r.range(0.5, 3); for (auto &x : col) x = v; how = "constant"; }
  else if (r.chance(0.4)) { int j = r.irange(0, sp.r - 1); for (int i = 0; i < N; i++) col[i] = sp.xreg[j * N + i]; how = "duplicate"; }
  else { for (int j = 0; j < sp.r; j++) { double k = (r.chance(0.5) ? 1 : -1) * r.range(0.5, 2); for (int i = 0; i < N; i++) col[i] += k * sp.xreg[j * N + i]; } how = "combination"; }
  sp.xreg.insert(sp.xreg.end(), col.begin(), col.end()); sp.r++;
  sp.describe(d, sizeof d);
  Obj ob(sp); int rv = ob.exec(); c.outi(rv); char t[64]; snprintf(t, sizeof t, "dependent:%s:m%d:ret%d", how, sp.method, rv); c.hit(t);
  c.mix(sp.hash()); c.mixv(sp.y); c.nontrivial();
  c.ok(rv == 7, "dependent-regressors-accepted", "%s %s column: retval %d", d, how, rv);
}
// Structured but linearly independent designs (dummies, steps, ramps) must not be refused.
static void independent(vf::Ctx &c) {
  vf::Rng &r = c.rng; GenOpt o; o.kinds[0] = o.kinds[1] = false; o.reg = 1; o.methods = 6; o.allopts = false; o.nmin = 40; o.nmax = 120; o.maxp = 1; o.maxq = 1; o.smax = 5;
  Spec sp = random_spec(c, o); char d[220]; int N = sp.N, per = r.irange(2, 6), k = r.irange(1, per - 1); const char *how;
  sp.r = k; sp.xreg.assign(N * k, 0.0); int kind = r.irange(0, 2); if (sp.D && kind == 0 && sp.s % per == 0) kind = 1;
  if (kind == 0) { how = "dummies"; for (int j = 0; j < k; j++) for (int i = 0; i < N; i++) sp.xreg[j * N + i] = i % per == j; }
  else if (kind == 1) { how = "steps"; for (int j = 0; j < k; j++) for (int i = 0; i < N; i++) sp.xreg[j * N + i] = i >= (j + 1) * N / (k + 1) + sp.d + sp.s * sp.D / 2; }
  else { how = "sines"; for (int j = 0; j < k; j++) for (int i = 0; i < N; i++) sp.xreg[j * N + i] = std::sin((0.9 + 0.31 * j) * i + j); }
  sp.describe(d, sizeof d);
  // independence judged by Gram-Schmidt in long double on the differenced columns (and the constant when a mean is fitted)
  std::vector<LVec> Q; if (sp.hasmean()) Q.push_back(LVec(N, 1.0L));
  for (int j = 0; j < k; j++) { LVec v(N); for (int i = 0; i < N; i++) v[i] = sp.xreg[j * N + i]; Q.push_back(ora::apply(ora::diffpoly(sp.d, sp.D, sp.s), v)); }
  for (size_t a = 0; a < Q.size(); a++) { LD n0 = 0; for (LD x : Q[a]) n0 += x * x;
    for (size_t b = 0; b < a; b++) { LD s = 0; for (size_t i = 0; i < Q[a].size(); i++) s += Q[a][i] * Q[b][i]; for (size_t i = 0; i < Q[a].size(); i++) Q[a][i] -= s * Q[b][i]; }
    LD n1 = 0; for (LD x : Q[a]) n1 += x * x; if (!(n1 > 1e-6L * n0) || !(n0 > 1e-9L)) { c.hit("skip:near-dependent"); return; } n1 = sqrtl(n1); for (LD &x : Q[a]) x /= n1; }
  Obj ob(sp); int rv = ob.exec(); c.outi(rv); char t[64]; snprintf(t, sizeof t, "independent:%s:ret%d", how, rv); c.hit(t);
  c.mix(sp.hash()); c.mixv(sp.y); c.nontrivial();
  c.ok(rv != 7, "independent-regressors-refused", "%s %d %s columns (period %d): retval %d", d, k, how, per, rv);
}
static void judge(vf::Ctx &c, int pk) {
  vf::Rng &r = c.rng;
  GenOpt o; o.kinds[0] = o.kinds[1] = false; o.reg = 1; o.methods = 7; o.match = 1; o.allopts = false; o.nmin = 80; o.nmax = 180; o.maxp = 2; o.maxq = 2; o.smax = 6;
  Spec sp; do { sp = random_spec(c, o); } while (sp.p + sp.q > 3 || (sp.P && sp.Q && sp.p + sp.q > 1)); jitter(sp.y, pk);
  int L = r.irange(1, 10), N = sp.N, k = sp.r; Vec nx(k * L); for (auto &v : nx) v = 2 * r.norm();
  char d[220]; sp.describe(d, sizeof d);
  Fc a, b;
  { // future values act linearly on one and the same fitted object
    Obj ob(sp); ob.exec(); Model m = ob.model(); if (m.retval == 1) {
      Out x1(L, "xpred"), v1(L, "amse"), x2(L, "xpred"), v2(L, "amse"); Vec n2 = nx; std::vector<double> dl(k * L);
      for (int i = 0; i < k * L; i++) { dl[i] = r.chance(0.5) ? r.range(-5, 5) : 0; n2[i] = nx[i] + dl[i]; }
      In i1(nx, "newxreg"), i2(n2, "newxreg"); ob.predict(L, i1, x1, v1); ob.predict(L, i2, x2, v2); c.outv(x1, L); c.outv(x2, L); c.outv(v1, L); c.outv(v2, L);
      if (!VF_NO_ORACLE) { c.nontrivial(); c.hit("future-regressors");
        for (int h = 0; h < L; h++) { LD w = 0, s = 0; for (int j = 0; j < k; j++) { w += (LD)m.exog[j] * ((LD)n2[j * L + h] - nx[j * L + h]); s += fabsl((LD)m.exog[j] * n2[j * L + h]) + fabsl((LD)m.exog[j] * nx[j * L + h]); }
          if (!c.ok(std::fabs((double)((LD)x2[h] - x1[h] - w)) <= 1e-9 * (std::fabs(x1[h]) + std::fabs(x2[h]) + (double)s), "future-regressors:forecast", "%s step %d forecast changed by %.12g, coefficients times change %.12Lg", d, h, x2[h] - x1[h], w)) break; }
        for (int h = 0; h < L; h++) if (!c.ok(std::fabs(v1[h] - v2[h]) <= 1e-12 * std::fabs(v1[h]), "future-regressors:mse", "%s step %d mse %.12g and %.12g", d, h, v1[h], v2[h])) break; }
    }
  }
  bool oka = fitall(sp, L, nx, a);
  Spec s2 = sp; Vec nx2 = nx; std::vector<int> perm(k); for (int j = 0; j < k; j++) perm[j] = j; Vec add(k, 0.0); const char *rel;
  if (k > 1 && r.chance(0.5)) {
    rel = "permute"; for (int j = k - 1; j > 0; j--) std::swap(perm[j], perm[r.irange(0, j)]);
    for (int j = 0; j < k; j++) { for (int i = 0; i < N; i++) s2.xreg[j * N + i] = sp.xreg[perm[j] * N + i]; for (int h = 0; h < L; h++) nx2[j * L + h] = nx[perm[j] * L + h]; }
  } else {
    rel = "add-regressor"; int j = r.irange(0, k - 1); double sx = 0; for (int i = 0; i < N; i++) sx = std::max(sx, std::fabs(sp.xreg[j * N + i]));
    add[j] = r.range(-5, 5) * sp.scale / sx; for (int i = 0; i < N; i++) s2.y[i] += add[j] * sp.xreg[j * N + i];
  }
  bool okb = fitall(s2, L, nx2, b); char t[64]; snprintf(t, sizeof t, "%s:%d%d", rel, oka, okb); c.hit(t);
  if (VF_NO_ORACLE || !oka || !okb) return;
  if (!identified(a.m) || !identified(b.m)) { c.hit("skip:unidentified"); return; }
  int n = sp.ncoef(), na = sp.p + sp.q + sp.P + sp.Q, e0 = n - k;
  for (int i = 0; i < n; i++) if (!(a.vc[i * n + i] > 0) || !(b.vc[i * n + i] > 0)) { c.hit("skip:indefinite-hessian"); return; }
  auto se = [&](int i) { return sqrt(a.vc[i * n + i]); };
  auto dbl = [](const Vec &v) { return v.size() == 2 && std::fabs(v[0] * v[0] + 4 * v[1]) < 0.02; };
  if (dbl(a.m.theta) || dbl(a.m.THETA) || dbl(b.m.theta) || dbl(b.m.THETA)) { c.hit("skip:double-root"); return; }
  for (int i = 0; i < na; i++) if (!(se(i) < 0.35)) { c.hit("skip:flat"); return; }
  c.mix(sp.hash()); c.mixv(sp.y); c.mixv(s2.y); c.nontrivial();
  LVec pa = pack(a.m), pb = pack(b.m); bool far = !(std::fabs(a.m.loglik - b.m.loglik) <= 0.12);
  for (int i = 0; i < na; i++) far |= std::fabs((double)(pa[i] - pb[i])) > 0.15 * se(i) + 1e-4;
  if (far && local_opt(a) && local_opt(b)) { c.hit("skip:another-local-optimum"); return; }
  char key[96];
  snprintf(key, sizeof key, "%s:loglik", rel); if (!c.ok(std::fabs(a.m.loglik - b.m.loglik) <= 0.12, key, "%s loglik %.9g and %.9g", d, a.m.loglik, b.m.loglik)) return;
  snprintf(key, sizeof key, "%s:arma-coefficients", rel); for (int i = 0; i < na; i++) if (!c.ok(std::fabs((double)(pa[i] - pb[i])) <= 0.15 * se(i) + 1e-4, key, "%s coefficient %d: %.9Lg and %.9Lg", d, i, pa[i], pb[i])) return;
  if (sp.hasmean()) { snprintf(key, sizeof key, "%s:mean", rel); c.ok(std::fabs(a.m.mean - b.m.mean) <= 0.5 * se(na), key, "%s mean %.9g and %.9g (se %.3g)", d, a.m.mean, b.m.mean, se(na)); }
  snprintf(key, sizeof key, "%s:exog", rel); for (int j = 0; j < k; j++) { double w = a.m.exog[perm[j]] + add[perm[j]], s = se(e0 + perm[j]); c.ok(std::fabs(b.m.exog[j] - w) <= 0.5 * s + 1e-7 * std::fabs(w), key, "%s exog[%d] %.9g expected %.9g (se %.3g)", d, j, b.m.exog[j], w, s); }
  snprintf(key, sizeof key, "%s:variance", rel); c.ok(std::fabs(a.m.var - b.m.var) <= 0.005 * a.m.var, key, "%s var %.9g and %.9g", d, a.m.var, b.m.var);
  snprintf(key, sizeof key, "%s:forecast", rel); for (int h = 0; h < L; h++) { LD w = a.x[h]; double tl = 0.06 * sqrt(a.v[h]) + (sp.hasmean() ? 0.5 * se(na) : 0); for (int j = 0; j < k; j++) { w += (LD)add[j] * nx[j * L + h]; tl += 0.5 * se(e0 + j) * std::fabs(nx[j * L + h]); } if (!c.ok(std::fabs(b.x[h] - (double)w) <= tl + 1e-9 * std::fabs((double)w), key, "%s xpred[%d] %.9g expected %.9Lg (se %.3g)", d, h, b.x[h], w, sqrt(a.v[h]))) break; }
  snprintf(key, sizeof key, "%s:mse", rel); for (int h = 0; h < L; h++) if (!c.ok(std::fabs(b.v[h] - a.v[h]) <= 0.05 * a.v[h], key, "%s amse[%d] %.9g and %.9g", d, h, b.v[h], a.v[h])) break;
  if (c.idx % 97 == 3) c.sample("%s %s exog[0] %.6g -> %.6g, loglik %.7g / %.7g", rel, d, a.m.exog[0], b.m.exog[0], a.m.loglik, b.m.loglik);
}
void run_case(vf::Ctx &c) {
  if (c.rng.chance(0.15)) { dependent(c); return; }
  if (c.rng.chance(0.1)) { independent(c); return; }
  vf::confirmed(c, [&](int k) { judge(c, k); });
}
