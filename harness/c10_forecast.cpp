// C10: forecasts are the minimum mean-square linear forecasts of the fitted model.
#include "fit.h"
const char *vf_driver_name = "c10_forecast";
using namespace fit;
// BLP of the series implied by the coefficients: stationary part by the innovations algorithm, then undo differencing.
static bool oracle(const Model &m, const Vec &newx, int L, LVec &pred, LVec &msef) {
  const Spec &sp = m.sp; LVec fp = m.fphi(), ft = m.fth(); LVec ex = ora::L(m.exog);
  LVec w = wseries(sp, m.mean, ex), pw, vv; std::vector<LVec> er;
  if (!ora::predict(fp, ft, w, L, pw, &er, &vv)) return false;
  LVec y = ora::L(sp.y); for (int j = 0; j < sp.r; j++) for (int i = 0; i < sp.N; i++) y[i] -= ex[j] * (LD)sp.xreg[j * sp.N + i];
  LVec dp = ora::diffpoly(sp.d, sp.D, sp.s); int k = dp.size() - 1; LD mu = sp.hasmean() ? m.mean : 0;
  pred.assign(L, 0);
  for (int h = 0; h < L; h++) { LD s = pw[h] + mu; for (int i = 1; i <= k; i++) s -= dp[i] * y[y.size() - i]; y.push_back(s); pred[h] = s; }
  for (int j = 0; j < sp.r; j++) for (int h = 0; h < L; h++) pred[h] += ex[j] * (LD)newx[j * L + h];
  // error of the undifferenced forecasts in terms of future innovations
  for (int h = 0; h < L; h++) for (int i = 1; i <= k && i <= h; i++) for (int j = 0; j <= h - i; j++) er[h][j] -= dp[i] * er[h - i][j];
  msef.assign(L, 0); for (int h = 0; h < L; h++) for (int j = 0; j <= h; j++) msef[h] += er[h][j] * er[h][j] * vv[j];
  return true;
}
void run_case(vf::Ctx &c) {
  GenOpt o; o.methods = 7; o.match = 0.8; o.nmin = 40; o.allopts = false;
  Spec sp = random_spec(c, o);
  if (c.rng.chance(0.2)) sp.opt = c.rng.irange(0, 7);
  if (sp.kind != SARIMAX && c.rng.chance(0.12)) sp.method = 3;
  char d[200]; sp.describe(d, sizeof d);
  Obj ob(sp); ob.exec(); Model m = ob.model();
  char t[64]; snprintf(t, sizeof t, "%s:m%d:ret%d", kname[sp.kind], sp.method, m.retval); c.hit(t); c.outi(m.retval);
  if (m.retval != 1) return;
  int L = c.rng.chance(0.1) ? c.rng.irange(30, 60) : c.rng.irange(1, 24);
  Vec nx(sp.r * L); for (auto &v : nx) v = 3 * c.rng.norm();
  Out xp(L, "xpred"), am(L, "amse"); In nin(nx, "newxreg");
  ob.predict(L, sp.r ? nin.p : nullptr, xp, am);
  c.outv(xp, L); c.outv(am, L);
  if (VF_NO_ORACLE) return;
  LD ms, mi; bool st = is_stationary(m, &ms), iv = is_invertible(m, &mi);
  if (!st || ms < 1e-3L || !iv) { c.hit("skip:boundary"); return; }
  c.mix(sp.hash()); c.mixv(sp.y); c.mix(L);
  LVec pr, mf; if (!oracle(m, nx, L, pr, mf)) { c.inconclusive("oracle"); return; }
  c.nontrivial();
  char tt[80]; snprintf(tt, sizeof tt, "d%d:D%d:p%d:q%d:P%d:Q%d", sp.d, sp.D, std::min(sp.p, 2), std::min(sp.q, 2), sp.P, sp.Q); c.hit(tt);
  // the innovation variance used by predict is the profiled one over the whole sample
  Eval e = eval(sp, pack(m), true); if (!e.ok) { c.inconclusive("oracle2"); return; }
  double s2 = (double)(e.ssq / sp.Nused());
  double ymax = 0; for (double v : sp.y) ymax = std::max(ymax, std::fabs(v));
  for (int h = 0; h < L; h++) {
    double se = sqrt(s2 * (double)mf[h]);
    double tol = 1e-6 * se + 1e-9 * (ymax * (h + 2) + std::fabs((double)pr[h]));
    if (mi < 1e-3L) tol += 1e-4 * se;
    char key[96]; snprintf(key, sizeof key, "forecast:%s%s", kname[sp.kind], sp.r ? ":xreg" : "");
    if (!c.ok(std::fabs(xp[h] - (double)pr[h]) <= tol, key, "%s xpred[%d]=%.12g best linear forecast %.12g (se %.3g)", d, h, xp[h], (double)pr[h], se)) break;
  }
  for (int h = 0; h < L; h++) {
    double want = s2 * (double)mf[h];
    if (!c.ok(std::fabs(am[h] - want) <= 1e-5 * want + 1e-12, "mse:prediction-error", "%s amse[%d]=%.12g variance times cumulative psi^2 %.12g", d, h, am[h], want)) break;
    if (sp.method < 2 && !c.ok(std::fabs(am[h] - m.var * (double)mf[h]) <= 3e-3 * want, "mse:reported-variance", "%s amse[%d]=%.12g reported var * psi %.12g", d, h, am[h], m.var * (double)mf[h])) break;
if (!c.ok(am[h] >= 0, "mse:negative", "%s amse[%d]=%.12g", d, h, am[h])) break;
  }
  // prefix property
  int L2 = c.rng.irange(1, L); Vec nx2(sp.r * L2); for (int j = 0; j < sp.r; j++) for (int h = 0; h < L2; h++) nx2[j * L2 + h] = nx[j * L + h];
  Out xp2(L2, "xpred"), am2(L2, "amse"); In nin2(nx2, "newxreg"); ob.predict(L2, sp.r ? nin2.p : nullptr, xp2, am2);
  c.closev("prefix:forecast", xp2, xp, L2, 1e-12, 0, "xpred"); c.closev("prefix:mse", am2, am, L2, 1e-12, 0, "amse");
  // forecasting the same object again changes nothing
  Model m2 = ob.model(); c.ok(m2.phi == m.phi && m2.theta == m.theta && m2.mean == m.mean && m2.var == m.var, "predict-modifies-object", "%s", d);
  if (c.idx % 97 == 3) c.sample("%s L=%d first %.6g oracle %.6g last mse %.6g oracle %.6g", d, L, xp[0], (double)pr[0], am[L - 1], s2 * (double)mf[L - 1]);
}
