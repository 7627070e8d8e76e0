// Auto-ARIMA configurations, runs and directly fitted candidates, shared by the C14 and C15 drivers.
#pragma once
#include "fit.h"
namespace aa {
using namespace fit;
struct Cfg { int pm = 2, dm = 2, qm = 2, Pm = 1, Dm = 1, Qm = 1, s = 0, r = 0, N = 0, stepwise = 1, approx = 0, stationary = 0, seasonal = 1, mean = 1, drift = 1, omax = 5, p0 = 2, q0 = 2, P0 = 1, Q0 = 1, ic = 1, test = 0, type = 0, seas = 0, method = 0; double alpha = 0.05, salpha = 0.05; Vec y, xreg; const char *shape = "generic"; bool flat = false;
  void describe(char *b, size_t n) const { snprintf(b, n, "auto_arima max(%d,%d,%d)(%d,%d,%d)[%d] r=%d N=%d step=%d approx=%d stat=%d seas=%d mean=%d drift=%d total=%d start=%d,%d,%d,%d ic=%d test=%d/%d/%g seastest=%d method=%d %s", pm, dm, qm, Pm, Dm, Qm, s, r, N, stepwise, approx, stationary, seasonal, mean, drift, omax, p0, q0, P0, Q0, ic, test, type, alpha, seas, method, shape); }
  uint64_t hash() const { uint64_t h = 7; for (int v : {pm, dm, qm, Pm, Dm, Qm, s, r, N, stepwise, approx, stationary, seasonal, mean, drift, omax, p0, q0, P0, Q0, ic, test, type, seas, method, (int)(alpha * 1000)}) h = h * 1000003u + v; return h; } };
static const char *ICN[] = {"aic", "aicc", "bic"}, *TESTN[] = {"kpss", "df", "pp"}, *TYPEN[] = {"level", "trend"}, *SEASN[] = {"seas", "ocsb"};
struct Res { int p, d, q, P, D, Q, s, M, r, ncoeff, lvcov, Nused, retval, idrift; double mean, var, loglik, aic, bic, aicc, sigma2; Vec phi, theta, PHI, THETA, exog, res, vcov;
  int k() const { return p + q + P + Q + M + 1; }
  double icv(int w) const { return w == 0 ? aic : w == 1 ? aicc : bic; } };
struct Run {
  auto_arima_object a; In y, xr; int r;
  explicit Run(const Cfg &f) : y(f.y, "series"), xr(f.xreg, "xreg"), r(f.r) { int o[3] = {f.pm, f.dm, f.qm}, S[3] = {f.Pm, f.Dm, f.Qm}; a = auto_arima_init(o, S, f.s, f.r, f.N);
    // options left at their documented defaults are not always set explicitly
    bool lazy = f.hash() & 1;
    if (!lazy || !f.stepwise) auto_arima_setStepwise(a, f.stepwise); if (!lazy || f.approx != (f.N > 150 || f.s > 12)) auto_arima_setApproximation(a, f.approx); if (!lazy || f.stationary) auto_arima_setStationary(a, f.stationary); if (!lazy || !f.seasonal) auto_arima_setSeasonal(a, f.seasonal); if (!lazy || !f.mean) auto_arima_allowMean(a, f.mean); if (!lazy || !f.drift) auto_arima_allowDrift(a, f.drift);
    if (!lazy || f.method) auto_arima_setMethod(a, f.method);
    if (!lazy || f.test || f.alpha != 0.05 || f.type) auto_arima_setStationarityParameters(a, TESTN[f.test], f.alpha, TYPEN[f.type]); if (!lazy || f.seas || f.salpha != 0.05) auto_arima_setSeasonalParameters(a, SEASN[f.seas], f.salpha);
    if (lazy && f.omax == 5 && f.p0 == 2 && f.q0 == 2 && f.P0 == 1 && f.Q0 == 1 && f.ic == 1) return;
    a->Order_max = f.omax; a->p_start = f.p0; a->q_start = f.q0; a->P_start = f.P0; a->Q_start = f.Q0; strcpy(a->information_criteria, ICN[f.ic]); }
  Run(const Run &) = delete; ~Run() { auto_arima_free(a); }
  void exec() { auto_arima_exec(a, y, r ? xr.p : nullptr); }
  Res get() { Res x; x.p = a->p; x.d = a->d; x.q = a->q; x.P = a->P; x.D = a->D; x.Q = a->Q; x.s = a->s; x.M = a->M; x.r = a->r; x.ncoeff = a->ncoeff; x.lvcov = a->lvcov; x.Nused = a->Nused; x.retval = a->retval; x.idrift = a->idrift; x.mean = a->mean; x.var = a->var; x.loglik = a->loglik; x.aic = a->aic; x.bic = a->bic; x.aicc = a->aicc; x.sigma2 = a->sigma2;
    if (x.retval == 0) return x;
    x.phi.assign(a->phi, a->phi + x.p); x.theta.assign(a->theta, a->theta + x.q); x.PHI.assign(a->PHI, a->PHI + x.P); x.THETA.assign(a->THETA, a->THETA + x.Q); x.exog.assign(a->exog, a->exog + x.r + x.idrift); x.res.assign(a->res, a->res + x.Nused); x.vcov.assign(a->vcov, a->vcov + x.lvcov); return x; }
};
inline void observe(Ctx &c, const Res &x) { for (int v : {x.p, x.d, x.q, x.P, x.D, x.Q, x.M, x.retval, x.idrift, x.ncoeff, x.lvcov, x.Nused}) c.outi(v); if (x.retval != 1) return;
  for (double v : {x.mean, x.var, x.loglik, x.aic, x.bic, x.aicc, x.sigma2}) c.out(v); for (const Vec *v : {&x.phi, &x.theta, &x.PHI, &x.THETA, &x.exog, &x.res}) c.outv(v->data(), v->size()); }
// the direct model of an order on the same data: drift is a 1..N regressor in front of the others
inline Spec spec(const Cfg &f, int p, int d, int q, int P, int D, int Q, int constant) { Spec sp; sp.kind = SARIMAX; sp.p = p; sp.d = d; sp.q = q; sp.P = P; sp.D = D; sp.Q = Q; sp.s = P + D + Q ? f.s : 0; sp.N = f.N; sp.y = f.y; sp.method = f.method; sp.opt = 5; sp.imean = constant; bool dr = constant && d + D == 1; sp.r = f.r + dr;
  if (dr) for (int i = 0; i < f.N; i++) sp.xreg.push_back(i + 1); for (double v : f.xreg) sp.xreg.push_back(v); return sp; }
struct Cand { bool fitted = false, admissible = false; double ll, aic, aicc, bic; Model m; double icv(int w) const { return w == 0 ? aic : w == 1 ? aicc : bic; } };
inline bool inside(const LVec &a, LD R) { LVec b = a; LD f = 1; for (auto &v : b) { f *= R; v *= f; } LD mg; return b.empty() || ora::stationary(b, &mg); }
inline Cand cand(const Spec &sp) { Cand k; sarimax_object o = sarimax_init(sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q, sp.s, sp.r, sp.imean, sp.N); if (sp.method) sarimax_setMethod(o, sp.method); In y(sp.y, "series"), x(sp.xreg, "xreg"); sarimax_exec(o, y, sp.r ? x.p : nullptr);
  if (o->retval == 1) { k.fitted = true; int n = o->Nused, kk = sp.ncoef() + 1; k.ll = o->loglik; k.aic = -2 * k.ll + 2 * kk; k.bic = k.aic + kk * (log((double)n) - 2); k.aicc = k.aic + 2.0 * kk * (kk + 1) / (n - kk - 1);
    Model &m = k.m; m.sp = sp; m.phi.assign(o->phi, o->phi + sp.p); m.theta.assign(o->theta, o->theta + sp.q); m.PHI.assign(o->PHI, o->PHI + sp.P); m.THETA.assign(o->THETA, o->THETA + sp.Q); m.exog.assign(o->exog, o->exog + sp.r); m.mean = o->mean; m.var = o->var; m.loglik = o->loglik; m.res.assign(o->res, o->res + n); m.lvcov = o->lvcov;
    k.admissible = inside(m.fphi(), 1.02L) && inside(ora::neg(m.fth()), 1.02L) && std::isfinite(k.ll); }
  sarimax_free(o); return k; }
inline Cfg random_cfg(Ctx &c, bool wide) {
  vf::Rng &g = c.rng; GenOpt o; for (bool &b : o.kinds) b = false; o.kinds[SARIMAX] = true; o.maxp = 2; o.maxq = 2; o.smax = 7; o.nmin = 40; o.nmax = 110; o.allopts = false; o.reg = wide ? 0.3 : 0.5;
  Spec sp = random_spec(c, o); Cfg f; f.s = sp.s; f.r = sp.r; f.N = sp.N; f.y = sp.y; f.xreg = sp.xreg;
  if (g.chance(0.35)) { double b = g.range(-1, 1) * sp.scale; for (int i = 0; i < f.N; i++) f.y[i] += b * i; f.shape = "trend"; }
  if (f.s == 0 && g.chance(0.4)) f.s = g.chance(0.3) ? 1 : g.irange(2, 7);
  if (f.s <= 1 && f.N >= 60 && g.chance(0.06)) f.s = g.irange(8, 14);
  if (g.chance(0.06)) { f.shape = "constant"; f.flat = true; double b = g.range(-5, 5); for (auto &v : f.y) v = b; f.r = 0; f.xreg.clear(); }
  else if (g.chance(0.06)) { f.shape = "periodic"; f.flat = true; f.r = 0; f.xreg.clear(); int b = g.chance(0.3) ? 0 : g.irange(-3, 3), per = std::max(f.s, 1); bool stair = g.chance(0.5); Vec m(per); for (auto &v : m) v = g.irange(-8, 8); for (int i = 0; i < f.N; i++) f.y[i] = m[i % per] + b * (stair ? i / per : i); }
  f.pm = g.irange(0, 3); f.qm = g.irange(0, 3); f.dm = g.chance(0.7) ? 2 : g.irange(0, 2); f.Pm = g.irange(0, 1); f.Qm = g.irange(0, 1); f.Dm = g.chance(0.8) ? 1 : g.irange(0, 2);
  if (wide && g.chance(0.15)) { f.Pm = g.irange(0, 2); f.Qm = g.irange(0, 2); f.pm = g.irange(0, 5); f.qm = g.irange(0, 5); }
  f.stepwise = g.chance(0.6); f.approx = g.chance(0.3); f.stationary = g.chance(0.2); f.seasonal = g.chance(0.8); f.mean = g.chance(0.7); f.drift = g.chance(0.7); f.omax = g.chance(0.6) ? 5 : g.irange(0, 5);
  if (g.chance(0.3)) { f.p0 = g.irange(0, 3); f.q0 = g.irange(0, 3); f.P0 = g.irange(0, 1); f.Q0 = g.irange(0, 1); }
  f.ic = g.irange(0, 2); f.test = g.chance(0.5) ? 0 : g.irange(0, 2); f.type = g.chance(0.3); f.seas = g.chance(0.2); f.alpha = g.chance(0.6) ? 0.05 : g.range(0.01, 0.1);
  if (!f.flat && g.chance(0.08)) { f.shape = "short"; int n = g.irange(6, 30); if (n < 16) f.test = 0; Vec z; for (int j = 0; j < std::min(f.r, 1); j++) z.insert(z.end(), f.xreg.begin(), f.xreg.begin() + n); f.r = std::min(f.r, 1); f.xreg = z; f.y.resize(n); f.N = n; if (f.s > 0 && n < 3 * f.s) f.s = 0; }
  if (f.seas == 1 && (f.flat || f.N < 3 * f.s + 20)) f.seas = 0;   // the OCSB regression refuses exactly periodic or very short series
  if (!f.stepwise) { f.pm = std::min(f.pm, 2); f.qm = std::min(f.qm, 2); if (f.s > 5) { f.Pm = std::min(f.Pm, 1); f.Qm = std::min(f.Qm, 1); } }
  return f;
}
}
