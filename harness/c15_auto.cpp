// C15: Auto-ARIMA delivers the fit and the forecasts of the model it selected.
#include "aa.h"
const char *vf_driver_name = "c15_auto";
using namespace aa;
static bool oracle(const Model &m, const Vec &newx, int L, LVec &pred, LVec &msef) {
  const Spec &sp = m.sp; LVec fp = m.fphi(), ft = m.fth(), ex = ora::L(m.exog), w = wseries(sp, m.mean, ex), pw, vv; std::vector<LVec> er;
  if (!ora::predict(fp, ft, w, L, pw, &er, &vv)) return false;
  LVec y = ora::L(sp.y); for (int j = 0; j < sp.r; j++) for (int i = 0; i < sp.N; i++) y[i] -= ex[j] * (LD)sp.xreg[j * sp.N + i];
  LVec dp = ora::diffpoly(sp.d, sp.D, sp.s); int k = dp.size() - 1; LD mu = sp.hasmean() ? m.mean : 0; pred.assign(L, 0);
  for (int h = 0; h < L; h++) { LD s = pw[h] + mu; for (int i = 1; i <= k; i++) s -= dp[i] * y[y.size() - i]; y.push_back(s); pred[h] = s; }
  for (int j = 0; j < sp.r; j++) for (int h = 0; h < L; h++) pred[h] += ex[j] * (LD)newx[j * L + h];
  for (int h = 0; h < L; h++) for (int i = 1; i <= k && i <= h; i++) for (int j = 0; j <= h - i; j++) er[h][j] -= dp[i] * er[h - i][j];
  msef.assign(L, 0); for (int h = 0; h < L; h++) for (int j = 0; j <= h; j++) msef[h] += er[h][j] * er[h][j] * vv[j];
  return true;
}
void run_case(vf::Ctx &c) {
  Cfg f = random_cfg(c, false); vf::Rng &g = c.rng;
  if (g.chance(0.35)) { f.drift = f.mean = 1; f.stationary = 0; if (f.dm == 0) f.dm = 1; if (!f.flat) { double b = g.range(-1, 1); Vec z = gen::integrate(gen::arma(g, gen::statcoef(g, 1, 0.4), {}, f.N), 1, 0.0); for (int i = 0; i < f.N; i++) f.y[i] = b * i + z[i]; f.shape = "drift"; for (int j = 0; j < f.r; j++) for (int i = 0; i < f.N; i++) f.y[i] += (j + 1) * f.xreg[j * f.N + i]; } }
  if (!f.flat && g.chance(0.25)) f.method = g.irange(1, 2);
  char d[400]; f.describe(d, sizeof d);
  Run a(f); a.exec(); Res x = a.get(); aa::observe(c, x);
  char t[96]; snprintf(t, sizeof t, "%s:ret%d", f.stepwise ? "stepwise" : "exhaustive", x.retval); c.hit(t);
  if ((x.retval != 1 && !(x.retval == 15 && f.flat && x.p + x.q + x.P + x.Q == 0)) || x.idrift < 0 || x.idrift > 1) return;
  int rr = f.r, L = g.chance(0.1) ? g.irange(25, 40) : g.irange(1, 16); Vec nx(rr * L); for (auto &v : nx) v = 3 * g.norm();
  Out xp(L, "xpred"), am(L, "amse"); { In nin(nx, "newxreg"); auto_arima_predict(a.a, a.y, rr ? a.xr.p : nullptr, L, rr ? nin.p : nullptr, xp, am); }
  c.outv(xp, L); c.outv(am, L);
  if (VF_NO_ORACLE) return;
  if (f.flat && x.p + x.q + x.P + x.Q == 0 && (x.D == 0 || f.s > 0)) {   // constant after differencing: the forecasts continue it
    LVec dp = ora::diffpoly(x.d, x.D, f.s), y = ora::L(f.y); int k = dp.size() - 1; LD mu = 0, lo = INFINITY, hi = -INFINITY, mag = 1; for (double v : f.y) mag = std::max(mag, fabsl((LD)v));
    for (int i = k; i < f.N; i++) { LD s = 0; for (int j = 0; j <= k; j++) s += dp[j] * y[i - j]; lo = std::min(lo, s); hi = std::max(hi, s); } if (x.d + x.D <= 1 && (x.d + x.D == 1 || f.mean)) mu = (lo + hi) / 2; else if (fabsl(lo + hi) > 1e-9L * mag) hi = INFINITY;
    if (hi - lo <= 1e-9L * mag) { c.nontrivial(); c.mix(f.hash()); c.mixv(f.y); char q[40]; snprintf(q, sizeof q, "exact:d%dD%d:ret%d", x.d, x.D, x.retval); c.hit(q);
      for (int h = 0; h < L; h++) { LD s = mu; for (int i = 1; i <= k; i++) s -= dp[i] * y[y.size() - i]; y.push_back(s); if (!c.ok(std::fabs(xp[h] - (double)s) <= 1e-6 * (double)mag * (h + 2), "exact:forecast", "%s (%d,%d,%d)(%d,%d,%d) drift %d forecast %d is %.12g, the series continues with %.12g", d, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift, h + 1, xp[h], (double)s)) break; c.ok(std::fabs(am[h]) <= 1e-6 * (double)(mag * mag) * (h + 1) * (h + 1), "exact:mse", "%s (%d,%d,%d)(%d,%d,%d) mean-square error %d is %g for an exact series", d, x.p, x.d, x.q, x.P, x.D, x.Q, h + 1, am[h]); } } }
  if (x.p + x.q + x.P + x.Q == 0 && (!(x.var > 0) || x.retval != 1)) { c.hit("skip:exact-fit"); return; }
  int hasmean = x.M - f.r - x.idrift; if (hasmean < 0 || hasmean > 1) { c.fail("terms", "%s M=%d", d, x.M); return; }
  c.mix(f.hash()); c.mixv(f.y); c.mix(L);
  Spec sp = spec(f, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift || hasmean);
  Model m; m.sp = sp; m.phi = x.phi; m.theta = x.theta; m.PHI = x.PHI; m.THETA = x.THETA; m.exog = x.exog; m.mean = x.mean; m.var = x.var; m.loglik = x.loglik; m.res = x.res; m.retval = 1; m.lvcov = x.lvcov;
  char t2[96]; snprintf(t2, sizeof t2, "model:%s:d%dD%d:r%d", x.idrift ? "drift" : hasmean ? "mean" : "none", x.d, x.D, std::min(f.r, 2)); c.hit(t2);
  if (x.P + x.Q) c.hit("model:seasonal-terms"); if (f.method) c.hit(f.method == 1 ? "model:ML" : "model:CSS");
  Cand own = cand(sp);
  if (!f.flat) {
    if (own.fitted) {
      bool same = own.admissible || !f.approx;
      if (same) {
        c.closev("fit:phi", m.phi.data(), own.m.phi.data(), sp.p, 1e-5, 1, d); c.closev("fit:theta", m.theta.data(), own.m.theta.data(), sp.q, 1e-5, 1, d); c.closev("fit:PHI", m.PHI.data(), own.m.PHI.data(), sp.P, 1e-5, 1, d); c.closev("fit:THETA", m.THETA.data(), own.m.THETA.data(), sp.Q, 1e-5, 1, d);
        double sd = sqrt(own.m.var); c.closev("fit:exog", m.exog.data(), own.m.exog.data(), sp.r, 1e-5, 1e-3, d); if (sp.hasmean()) c.close("fit:mean", m.mean, own.m.mean, 1e-5, sd, d);
        c.close("fit:var", m.var, own.m.var, 1e-5, 0, d); c.close("fit:loglik", m.loglik, own.m.loglik, 1e-5, 1, d); c.closev("fit:res", m.res.data(), own.m.res.data(), x.Nused, 1e-5, sd, d);
        c.ok(x.lvcov == sp.ncoef() * sp.ncoef(), "fit:vcov-size", "%s lvcov %d", d, x.lvcov);
        sarimax_object o = sarimax_init(sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q, sp.s, sp.r, sp.imean, sp.N); if (sp.method) sarimax_setMethod(o, sp.method); { In y(sp.y, "series"), xr(sp.xreg, "xreg"); sarimax_exec(o, y, sp.r ? xr.p : nullptr); } bool fin = true; for (int i = 0; i < x.lvcov; i++) if (!std::isfinite(o->vcov[i])) fin = false;
        if (fin && o->lvcov == x.lvcov) { double mx = 0; for (int i = 0; i < x.lvcov; i++) mx = std::max(mx, std::fabs(o->vcov[i])); c.closev("fit:vcov", x.vcov.data(), o->vcov, x.lvcov, 1e-4, 1e-3 * mx, d); } sarimax_free(o);
      }
    } else if (!f.approx) c.fail("fit:unfittable", "%s reports success for (%d,%d,%d)(%d,%d,%d), a direct fit does not succeed", d, x.p, x.d, x.q, x.P, x.D, x.Q);
  }
  LD ms, mi; bool st = is_stationary(m, &ms), iv = is_invertible(m, &mi);
  if (!st || ms < 1e-3L || !iv) { c.hit("skip:boundary"); return; }
  Vec fx; if (x.idrift) for (int h = 0; h < L; h++) fx.push_back(f.N + h + 1); for (double v : nx) fx.push_back(v);
  LVec b = pack(m); Eval e = eval(sp, b, true); LVec pr, mf;
  if (!e.ok || !oracle(m, fx, L, pr, mf)) { if (f.flat) c.hit("skip:exact-fit"); else c.inconclusive("oracle"); return; }
  c.nontrivial();
  int Nu = sp.Nused(); double s2 = (double)(e.ssq / Nu), ymax = 0; for (double v : sp.y) ymax = std::max(ymax, std::fabs(v));
  bool fallback = f.approx && !own.admissible;
  if (!f.flat && !fallback) { Eval ec = f.method == 2 ? eval(sp, b, false) : e; if (!ec.ok) ec = e; double vc = f.method == 2 ? (double)(ec.ssq / (Nu - sp.p - sp.s * sp.P)) : s2, ll = (double)(-0.5L * Nu * (2 * ec.obj + 1 + logl(2 * 3.14159265358979323846L)));
    c.ok(std::fabs(m.loglik - ll) <= 2e-3 + 2e-5 * Nu + 1e-6 * std::fabs(ll), "loglik", "%s loglik %.12g, independent evaluation of the reported model %.12g", d, m.loglik, ll); c.ok(std::fabs(m.var - vc) <= 2e-3 * vc, "variance", "%s var %.10g, independent %.10g", d, m.var, vc); }
  for (int h = 0; h < L; h++) {
    double se = sqrt(s2 * (double)mf[h]), tol = 1e-6 * se + 1e-9 * (ymax * (h + 2) + std::fabs((double)pr[h])); if (mi < 1e-3L) tol += 1e-4 * se;
    if (!c.ok(std::fabs(xp[h] - (double)pr[h]) <= tol, x.idrift ? f.r ? "forecast:drift:xreg" : "forecast:drift" : f.r ? "forecast:xreg" : "forecast", "%s (%d,%d,%d)(%d,%d,%d) drift %d xpred[%d]=%.12g best linear forecast %.12g (se %.3g)", d, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift, h, xp[h], (double)pr[h], se)) break;
    double want = s2 * (double)mf[h]; if (!c.ok(std::fabs(am[h] - want) <= 1e-5 * want + 1e-12, "mse", "%s amse[%d]=%.12g want %.12g", d, h, am[h], want)) break;
  }
  Res z = a.get(); c.ok(z.phi == x.phi && z.exog == x.exog && z.mean == x.mean && z.idrift == x.idrift, "predict-modifies-object", "%s", d);
  if (c.idx % 97 == 3) c.sample("%s -> (%d,%d,%d)(%d,%d,%d) drift %d, forecast %.8g oracle %.8g", d, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift, xp[L - 1], (double)pr[L - 1]);
}
