// C13: coefficient covariance against the curvature of an independent likelihood.
#include "fit.h"
const char *vf_driver_name = "c13_vcov";
using namespace fit;
static bool invert(std::vector<LVec> A, std::vector<LVec> &R) { int n = A.size(); R.assign(n, LVec(n, 0)); for (int j = 0; j < n; j++) { LVec e(n, 0), x; e[j] = 1; if (!ora::solve(A, e, x)) return false; for (int i = 0; i < n; i++) R[i][j] = x[i]; } return true; }
static void judge(vf::Ctx &c, int k) {
  GenOpt o; o.methods = 7; o.match = 1; o.nmin = 80; o.nmax = 200; o.maxp = 2; o.maxq = 2; o.smax = 6; o.allopts = false;
  Spec sp = random_spec(c, o); jitter(sp.y, k);
  if (c.rng.chance(0.3)) { static const int g[] = {0, 1, 3, 5, 7}; sp.opt = g[c.rng.irange(0, 4)]; }
  char d[200]; sp.describe(d, sizeof d);
  Obj ob(sp); ob.exec(); Model m = ob.model(); observe(c, m);
  char t[64]; snprintf(t, sizeof t, "%s:m%d:ret%d", kname[sp.kind], sp.method, m.retval); c.hit(t);
  int n = sp.ncoef();
  if (m.retval != 1 || n == 0) return;
  Out vc(n * n, "vcov"); ob.vcov(vc); c.outv(vc, n * n);
  if (VF_NO_ORACLE) return;
  c.ok(ob.lvcov() == n * n, "vcov:length", "%s lvcov %d for %d coefficients", d, ob.lvcov(), n);
  bool ml = sp.method != 2;
  LD ms, mi; bool st = is_stationary(m, &ms), iv = is_invertible(m, &mi);
  if (!st || ms < 0.05L || !iv || mi < 0.05L) { c.hit("skip:boundary"); return; }
  double vmax = 0; for (int i = 0; i < n * n; i++) { if (!c.ok(std::isfinite(vc[i]), "vcov:not-finite", "%s element %d", d, i)) return; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double sc = sqrt(std::fabs(vc[i * n + i] * vc[j * n + j])); if (!c.ok(std::fabs(vc[i * n + j] - vc[j * n + i]) <= 1e-6 * (sc + std::fabs(vc[i * n + j])), "vcov:asymmetric", "%s [%d,%d] %.12g vs %.12g", d, i, j, vc[i * n + j], vc[j * n + i])) return; }
  LVec b = pack(m); int Nu = sp.Nused(); Eval e0 = eval(sp, b, ml); if (!e0.ok) { c.inconclusive("oracle"); return; }
  int na = sp.p + sp.q + sp.P + sp.Q; LVec h(n); 
  for (int i = 0; i < n; i++) {
    h[i] = 1e-3L; if (i >= na) { LD hh = 1e-3L * sqrtl(e0.ssq / Nu); LVec q = b; q[i] += hh; Eval a = eval(sp, q, ml); q[i] = b[i] - hh; Eval z = eval(sp, q, ml); LD H = (a.obj + z.obj - 2 * e0.obj) / (hh * hh); if (!(H > 0)) { c.inconclusive("location-curvature"); return; } h[i] = 1e-2L / sqrtl(H); }
  }
  std::vector<LVec> H(n, LVec(n, 0)), R;
  auto f = [&](int i, LD a, int j, LD z) { LVec q = b; q[i] += a; q[j] += z; Eval e = eval(sp, q, ml); return e.ok ? e.obj : (LD)NAN; };
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
    LD v = i == j ? (f(i, h[i], i, 0) + f(i, -h[i], i, 0) - 2 * e0.obj) / (h[i] * h[i])
                  : (f(i, h[i], j, h[j]) - f(i, h[i], j, -h[j]) - f(i, -h[i], j, h[j]) + f(i, -h[i], j, -h[j])) / (4 * h[i] * h[j]);
    H[i][j] = H[j][i] = v * Nu;
  }
  for (auto &r : H) for (LD v : r) if (!std::isfinite((double)v)) { c.inconclusive("oracle-edge"); return; }
  if (!invert(H, R)) { c.inconclusive("singular"); return; }
  // conditioning: only interior, well-identified optima
  for (int i = 0; i < n; i++) if (!(R[i][i] > 0) || R[i][i] * H[i][i] > 30 || (i < na && R[i][i] > 0.09L)) { c.hit("skip:ill-conditioned"); return; }
  LD vif = 1; for (int i = 0; i < n; i++) vif = std::max(vif, R[i][i] * H[i][i]);
  double tol = vif <= 4 ? 0.01 : ms < 0.15L || mi < 0.15L ? 0.2 : 0.05, tl = vif <= 4 ? 0.02 : 0.12;   // near the boundary the curvature changes over the differencing step if (vif <= 4) c.hit("well-conditioned");
  // the point must be a stationary point for the curvature to mean anything
  c.mix(sp.hash()); c.mixv(sp.y); c.nontrivial();
  snprintf(t, sizeof t, "checked:%s:m%d:n%d", kname[sp.kind], sp.method, n); c.hit(t);
  double worst = 0, wo = 0; int wi = 0, oi = 0, oj = 0;
  for (int i = 0; i < n; i++) { double want = (double)R[i][i], e = std::fabs(vc[i * n + i] - want) / want; if (!(e <= worst)) worst = e, wi = i; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double sc = (double)sqrtl(R[i][i] * R[j][j]), e = std::fabs(vc[i * n + j] - (double)R[i][j]) / sc; if (!(e <= wo)) wo = e, oi = i, oj = j; }
  if (getenv("VF_DBG")) fprintf(stderr, "V %d %d %d %.3g %.3g vif %.3Lg se %.3Lg i %d na %d\n", sp.kind, sp.method, sp.opt, worst, wo, R[wi][wi]*H[wi][wi], sqrtl(R[wi][wi]), wi, na);
  c.ok(worst <= (wi < na ? tol : tl), wi < na ? "vcov:variance-arma" : "vcov:variance-location", "%s coefficient %d variance %.9g, inverse information %.9Lg", d, wi, vc[wi * n + wi], R[wi][wi]);
  if (n > 1) c.ok(wo <= (oi < na ? tol : tl), "vcov:covariance", "%s element [%d,%d] %.9g, inverse information %.9Lg", d, oi, oj, vc[oi * n + oj], R[oi][oj]);
  if (c.idx % 97 == 3) c.sample("%s largest relative deviation of a variance %.2g, of a covariance %.2g over %d coefficients", d, worst, wo, n);
}
void run_case(vf::Ctx &c) { vf::confirmed(c, [&](int k) { judge(c, k); }); }
