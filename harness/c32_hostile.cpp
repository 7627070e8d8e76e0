// C32: degenerate series are answered; what is reported as a success is usable.
#include "fit.h"
#include "aa.h"
extern "C" {
#include "autoutils.h"
#include "seastest.h"
#include "unitroot.h"
#include "stats.h"
#include "boxcox.h"
}
const char *vf_driver_name = "c32_hostile";
using namespace fit;
static const char *SH[] = {"zero", "constant", "alternating", "spike", "ramp", "quadratic", "huge", "tiny", "ramp-noise", "offset", "counts", "step", "explosive", "explosive-alternating", "periodic", "near-constant", "two-level", "mixed-magnitude", "repeated-noise", "reversed-ramp", "sine", "single-end"};
static const int NSH = sizeof SH / sizeof *SH;
static Vec shape(vf::Rng &r, int k, int N, int s) {
  Vec x(N); double c = r.chance(0.5) ? r.irange(-5, 5) : r.range(-100, 100); int at = r.irange(0, N - 1), per = std::max(2, s); Vec m(per); for (auto &v : m) v = r.irange(-4, 4); double g = r.range(0.1, 0.9);
  for (int i = 0; i < N; i++) switch (k) {
    case 0: x[i] = 0; break; case 1: x[i] = c; break; case 2: x[i] = c + (i % 2 ? 1 : -1); break; case 3: x[i] = c + (i == at ? 10 : 0); break;
    case 4: x[i] = c + 0.25 * i; break; case 5: x[i] = c + 0.5 * i * i; break; case 6: x[i] = 1e140 * r.norm(); break; case 7: x[i] = 1e-140 * r.norm(); break;
    case 8: x[i] = c + i + 1e-9 * r.norm(); break; case 9: x[i] = 1e9 + 1e-4 * r.norm(); break; case 10: x[i] = r.chance(0.8) ? 0 : r.irange(1, 4); break; case 11: x[i] = c + (i >= at ? 7 : 0); break;
    case 12: x[i] = c + std::exp(g * i * 60.0 / N); break; case 13: x[i] = c + (i % 2 ? -1 : 1) * std::exp(g * i * 40.0 / N); break; case 14: x[i] = c + m[i % per]; break; case 15: x[i] = c + 1e-13 * r.norm(); break;
    case 16: x[i] = r.chance(0.5) ? c : c + 1; break; case 17: x[i] = r.norm() * std::pow(10.0, r.range(-8, 8)); break; case 18: x[i] = i >= 3 && r.chance(0.7) ? x[i - 1] : r.norm(); break; case 19: x[i] = 1e6 - i; break;
    case 20: x[i] = c + std::sin(2 * M_PI * i / per); break; default: x[i] = c + (i == N - 1 ? 3 : 0); }
  return x;
}
static bool fin(double v) { return std::isfinite(v); }
static bool allfin(const double *p, int n) { for (int i = 0; i < n; i++) if (!fin(p[i])) return false; return true; }
static int firstbad(const double *p, int n) { for (int i = 0; i < n; i++) if (!fin(p[i])) return i; return -1; }
static double level(const Vec &x) { double m = 0; for (double v : x) m = std::max(m, std::fabs(v)); return m; }
static void judge_forecast(Ctx &c, const char *d, const double *xp, const double *am, int L, double lev) {
  int b = firstbad(xp, L); c.ok(b < 0, "forecast:finite", "%s forecast %d is %g", d, b + 1, b < 0 ? 0 : xp[b]);
  b = firstbad(am, L); c.ok(b < 0, "forecast:error-finite", "%s mean-square error %d is %g", d, b + 1, b < 0 ? 0 : am[b]);
  for (int i = 0; i < L; i++) if (!c.ok(!(am[i] < 0), "forecast:error-sign", "%s mean-square error %d is %g", d, i + 1, am[i])) break;
  (void)lev;
}
static void do_model(Ctx &c, int k) {
  vf::Rng &r = c.rng; Spec sp; sp.kind = (Kind)r.irange(0, 2); sp.p = r.irange(0, 3); sp.q = r.irange(0, 3); if (r.chance(0.4)) sp.p = std::min(sp.p, 1), sp.q = std::min(sp.q, 1); sp.d = r.chance(0.5) ? 0 : r.irange(1, 2);
  if (sp.kind != ARIMA) { sp.s = r.irange(2, 6); sp.P = r.irange(0, 1); sp.Q = r.irange(0, 1); sp.D = r.chance(0.4); if (sp.kind == SARIMAX && sp.P + sp.D + sp.Q == 0) sp.s = 0; if (sp.kind == SARIMAX) sp.imean = r.chance(0.7); }
  sp.method = r.irange(0, sp.kind == SARIMAX ? 2 : 3); sp.opt = r.irange(0, 7); int big = std::max(sp.p + sp.s * sp.P, sp.q + sp.s * sp.Q + 1); if (sp.opt < 4 && big > 8) sp.opt += 4;
  int need = sp.d + sp.s * sp.D + sp.ncoef() + sp.p + sp.s * sp.P + sp.q + sp.s * sp.Q + 4; sp.N = need + (r.chance(0.35) ? r.irange(0, 8) : r.irange(10, 80));
  if (sp.method == 3) sp.N = std::max(sp.N, need + 20);
  sp.y = shape(r, k, sp.N, sp.s); if (sp.kind == SARIMAX && r.chance(0.4)) { sp.r = 1; for (int i = 0; i < sp.N; i++) sp.xreg.push_back(r.chance(0.5) ? r.norm() : i % 3); }
  char d[200]; sp.describe(d, sizeof d); char e[260]; snprintf(e, sizeof e, "%s series=%s", d, SH[k]); c.mixv(sp.y); c.mix(sp.hash());
  Obj o(sp); int rc = o.exec(); Model m = o.model(); observe(c, m); char t[80]; snprintf(t, sizeof t, "model:code%d", rc); c.hit(t); c.nontrivial();
  c.ok(rc == 0 || rc == 1 || rc == 4 || rc == 7 || rc == 10 || rc == 12 || rc == 15 || rc == 2 || rc == 3 || rc == 5 || rc == 6, "model:code", "%s code %d", e, rc);
  if (c.idx % 211 == 0) c.sample("%s code %d var %g loglik %g", e, rc, m.var, m.loglik);
  if (rc == 1) {
    LVec b = pack(m); bool f = true; for (LD v : b) f = f && std::isfinite((double)v);
    c.ok(f, "model:coefficients", "%s code 1 with a coefficient that is not finite", e);
    c.ok(fin(m.var) && m.var >= 0, "model:variance", "%s code 1 with variance %g", e, m.var);
    if (sp.method < 3 && m.var > 0) c.ok(fin(m.loglik), "model:likelihood", "%s code 1 with log-likelihood %g (variance %g)", e, m.loglik, m.var);
    c.ok(allfin(m.res.data(), m.res.size()), "model:residuals", "%s code 1 with a residual %d that is not finite", e, firstbad(m.res.data(), m.res.size()));
    int L = r.irange(1, 12); Vec nx(sp.r * L); for (auto &v : nx) v = r.norm(); In ni(nx, "newxreg"); Out xp(L, "xpred"), am(L, "amse"); o.predict(L, ni, xp, am); c.outv(xp, L); c.outv(am, L); c.hit("model:forecast");
    LD mg1 = 1; bool st = is_stationary(m, &mg1); if (st && mg1 > 1e-6) judge_forecast(c, e, xp, am, L, level(sp.y));
    if (m.lvcov > 0) { Out v(m.lvcov, "vcov"); o.vcov(v); c.outv(v, m.lvcov); }
  }
}
static void do_auto(Ctx &c, int k) {
  vf::Rng &r = c.rng; aa::Cfg f; f.s = r.chance(0.5) ? 0 : r.irange(1, 6); f.N = r.chance(0.3) ? r.irange(4, 16) : r.irange(17, 70); if (f.s > 1 && r.chance(0.7)) f.N = std::max(f.N, 2 * f.s + 3); if (r.chance(0.1)) f.s = r.irange(5, 14); f.y = shape(r, k, f.N, f.s);
  if (r.chance(0.3) && f.N > 20) { f.r = 1; for (int i = 0; i < f.N; i++) f.xreg.push_back(r.norm()); }
  f.pm = r.irange(0, 3); f.qm = r.irange(0, 2); f.Pm = f.Qm = r.irange(0, 1); f.stepwise = r.chance(0.75); f.approx = r.chance(0.3); f.stationary = r.chance(0.15); f.seasonal = r.chance(0.85); f.mean = r.chance(0.7); f.drift = r.chance(0.7); f.ic = r.irange(0, 2); f.test = f.N < 16 ? 0 : r.irange(0, 2); f.type = r.chance(0.3); f.seas = r.chance(0.25);
  char d[400], e[460]; f.describe(d, sizeof d); snprintf(e, sizeof e, "%s series=%s", d, SH[k]); c.mixv(f.y); c.mix(f.hash());
  aa::Run R(f); R.exec(); aa::Res x = R.get(); aa::observe(c, x); char t[80]; snprintf(t, sizeof t, "auto:code%d", x.retval); c.hit(t); c.nontrivial();
  if (x.retval == 1) {
    bool g = fin(x.mean) && allfin(x.phi.data(), x.phi.size()) && allfin(x.theta.data(), x.theta.size()) && allfin(x.PHI.data(), x.PHI.size()) && allfin(x.THETA.data(), x.THETA.size()) && allfin(x.exog.data(), x.exog.size());
    c.ok(g, "auto:coefficients", "%s code 1 with a coefficient that is not finite", e); c.ok(fin(x.var) && x.var >= 0, "auto:variance", "%s variance %g", e, x.var); if (x.var > 0) c.ok(fin(x.loglik), "auto:likelihood", "%s log-likelihood %g", e, x.loglik);
    int L = r.irange(1, 8); Vec nx(f.r * L); for (auto &v : nx) v = r.norm(); In ni(nx, "newxreg"); Out xp(L, "xpred"), am(L, "amse"); auto_arima_predict(R.a, R.y, f.r ? R.xr.p : nullptr, L, ni, xp, am); c.outv(xp, L); c.outv(am, L); judge_forecast(c, e, xp, am, L, level(f.y));
  }
}
static void do_ar(Ctx &c, int k) {
  vf::Rng &r = c.rng; int me = r.chance(0.08) ? 2 : r.irange(0, 1), N = me == 2 ? r.irange(6, 11) : r.irange(5, 80); Vec x = shape(r, k, N, 4); In xi(x, "series"); c.mixv(x); c.mix(me); c.nontrivial(); char e[120]; snprintf(e, sizeof e, "ar method=%d N=%d series=%s", me, N, SH[k]);
  ar_object a = ar_init(me, N); ar_exec(a, xi); char t[60]; snprintf(t, sizeof t, "ar:code%d", a->retval); c.hit(t); c.outi(a->retval); c.outi(a->p);
  if (a->retval == 1) { c.ok(allfin(a->phi, a->p) && fin(a->mean) && fin(a->var), "ar:finite", "%s order %d mean %g var %g", e, a->p, a->mean, a->var); c.ok(a->var >= 0, "ar:variance", "%s var %g", e, a->var); int L = 5; Out xp(L, "xpred"), am(L, "amse"); ar_predict(a, xi, L, xp, am); c.outv(xp, L); c.outv(am, L); LD mg = 1; Vec ph(a->phi, a->phi + a->p); bool st = ph.empty() || (ora::stationary(ora::L(ph), &mg) && mg > 1e-6); if (st) judge_forecast(c, e, xp, am, L, level(x)); }
  ar_free(a);
}
static void do_tests(Ctx &c, int k) {
  vf::Rng &r = c.rng; int s = r.irange(2, 6), N = r.irange(30, 90); Vec x = shape(r, k, N, s); In xi(x, "series"); c.mixv(x); int w = r.irange(0, 6); c.mix(w); c.nontrivial(); double st = 0, pv = 0; char e[120]; snprintf(e, sizeof e, "test %d N=%d series=%s", w, N, SH[k]);
  static const char *TY[] = {"level", "trend"}, *DT[] = {"none", "drift", "trend"}, *SEL[] = {"fixed", "aic", "bic"}, *TT[] = {"kpss", "df", "pp"};
  auto pval = [&](const char *n) { c.out(st); c.out(pv); c.ok(pv != pv || (pv >= 0 && pv <= 1), "test:p-value", "%s %s p-value %g (statistic %g)", e, n, pv, st); };
  int lag = r.irange(0, 4);
  switch (w) {
    case 0: ur_kpss(xi, N, TY[r.irange(0, 1)], r.irange(0, 1), r.chance(0.5) ? &lag : nullptr, &st, &pv); pval("kpss"); break;
    case 1: ur_df(xi, N, r.chance(0.5) ? "stationary" : "explosive", r.chance(0.5) ? &lag : nullptr, &st, &pv); pval("adf"); break;
    case 2: ur_pp(xi, N, "stationary", r.chance(0.5) ? "Z(alpha)" : "Z(t_alpha)", r.irange(0, 1), r.chance(0.5) ? &lag : nullptr, &st, &pv); pval("pp"); break;
    case 3: { Out cv(9, "cval"), cp(3, "cprobs"), ts(3, "teststat"); int rows = 0, cols = 0, lt = 0; ur_df2(xi, N, DT[r.irange(0, 2)], &lag, SEL[r.irange(0, 2)], cv, &rows, &cols, cp, ts, &lt); c.ok(lt >= 1 && lt <= 3 && rows == lt && cols == 3, "test:df2-shape", "%s %d %d %d", e, rows, cols, lt); c.outv(ts, lt); break; }
    case 4: { Out cv(3, "cval"), cp(3, "cprobs"), ax(2, "auxstat"); int la = 0; ur_pp2(xi, N, r.chance(0.5) ? "Z-alpha" : "Z-tau", r.chance(0.5) ? "constant" : "trend", r.irange(0, 1), r.chance(0.5) ? &lag : nullptr, cv, cp, ax, &la, &st); c.out(st); break; }
    case 5: { int md = r.irange(0, 2), d = ndiffs(xi, N, nullptr, TT[r.irange(0, 2)], TY[r.irange(0, 1)], &md); c.outi(d); c.ok(d >= 0 && d <= md, "test:ndiffs", "%s order %d of at most %d", e, d, md); break; }
    default: { int mD = r.irange(0, 2), D = nsdiffs(xi, N, s, nullptr, r.chance(0.5) ? "seas" : "ocsb", &mD); c.outi(D); c.ok(D >= 0 && D <= mD, "test:nsdiffs", "%s order %d of at most %d", e, D, mD); }
  }
}
static void do_rest(Ctx &c, int k) {
  vf::Rng &r = c.rng; int s = r.irange(2, 8), N = r.irange(2 * s + 2, 90); if (N < 12) N = 12; Vec x = shape(r, k, N, s); c.mixv(x); int w = r.irange(0, 5); c.mix(w); c.nontrivial(); char e[120]; snprintf(e, sizeof e, "part %d N=%d f=%d series=%s", w, N, s, SH[k]); double lev = level(x);
  In xi(x, "series");
  if (w <= 1) { Out se(N, "seasonal"), t(N, "trend"), re(N, "remainder"); int rob = r.irange(0, 1), ns = 7; stl(xi, N, s, r.chance(0.5) ? "period" : "null", &ns, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &rob, nullptr, nullptr, se, t, re); c.outv(se, N); c.outv(t, N); c.outv(re, N); c.hit("stl");
    for (int i = 0; i < N; i++) if (!c.ok(fin(se[i]) && fin(t[i]) && fin(re[i]) && std::fabs(se[i] + t[i] + re[i] - x[i]) <= 1e-12 * lev + 1e-300, "stl:sum", "%s at %d: %g+%g+%g, series %g", e, i, se[i], t[i], re[i], x[i])) break; }
  else if (w == 2) { int M = r.irange(1, N - 1), me = r.irange(0, 2); Out a(M, "par"); c.mix(M); acvf_opt(xi, N, me % 2, a, M); c.outv(a, M); c.ok(allfin(a, M), "acvf:finite", "%s", e); double a0 = a[0]; acvf2acf(a, M); c.outv(a, M); if (a0 > 1e-290) for (int i = 0; i < M; i++) if (!c.ok(std::fabs(a[i]) <= 1 + 1e-9, "acf:range", "%s acf[%d]=%g", e, i, a[i])) break; c.hit("acvf"); }
  else if (w == 3) { int M = r.irange(1, std::min(10, N / 2 - 1)), me = r.irange(0, 2); c.mix(M); Out a(M, "par"); pacf_opt(xi, N, me, a, M); c.outv(a, M); c.hit("pacf"); }
  else if (w == 4) { for (auto &v : x) v = std::fabs(v) + 1e-3; bool cst = true; for (double v : x) cst = cst && v == x[0]; if (lev < 1e30 && !cst) { In yi(x, "series"); Out y(N, "transformed"); double lam = 9; boxcox(yi, N, r.chance(0.5) ? nullptr : &lam, y); c.outv(y, N); c.hit("boxcox"); } }
  else { int h = s / 2, n = N - 2 * h; if (n >= s) { bool mul = r.chance(0.3); if (mul) for (auto &v : x) v = std::fabs(v) + 1; In zi(x, "series"); Out t(n, "trend"), se(n, "seasonal"), re(n, "random"); int a, b, d; decompose(zi, N, s, nullptr, mul ? "multiplicative" : "additive", t, &a, se, &b, re, &d); c.outv(t, n); c.outv(se, n); c.outv(re, n); c.ok(allfin(t, n) && allfin(se, n), "decompose:finite", "%s", e); c.hit("decompose"); } }
}
void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int k = r.irange(0, NSH - 1); char t[60]; snprintf(t, sizeof t, "shape:%s", SH[k]); c.hit(t); int w = r.irange(0, 9);
  if (w < 4) do_model(c, k); else if (w < 6) do_auto(c, k); else if (w < 7) do_ar(c, k); else if (w < 9) do_tests(c, k); else do_rest(c, k);
}
