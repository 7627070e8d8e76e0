// Random model specifications, uniform access to the three fitted-model object types, and the
// independent objectives for them.
#pragma once
#include "vf.h"
#include "gen.h"
#include "arma.h"
extern "C" {
#include "ctsa.h"
}
namespace fit {
using vf::Ctx;
enum Kind { ARIMA, SARIMA, SARIMAX };
static const char *kname[] = {"arima", "sarima", "sarimax"};
struct Spec {
  Kind kind = ARIMA; int p = 0, d = 0, q = 0, P = 0, D = 0, Q = 0, s = 0, r = 0, imean = 1;
  int method = 0;      // 0 CSS then ML, 1 ML only, 2 CSS only, 3 Box-Jenkins
  int opt = 5, N = 0;
  Vec y, xreg;         // xreg column-major N*r
  double scale = 1;    // innovation scale planted
  int Nused() const { return N - d - s * D; }
  bool hasmean() const { return d == 0 && D == 0 && (kind != SARIMAX || imean == 1); }
  int M() const { return (hasmean() ? 1 : 0) + r; }
  int ncoef() const { return p + q + P + Q + M(); }
  void describe(char *b, size_t n) const { snprintf(b, n, "%s(%d,%d,%d)(%d,%d,%d)[%d] r=%d imean=%d method=%d opt=%d N=%d", kname[kind], p, d, q, P, D, Q, s, r, imean, method, opt, N); }
  uint64_t hash() const { uint64_t h = kind; for (int v : {p, d, q, P, D, Q, s, r, imean, method, opt, N}) h = h * 1000003u + v; return h; }
};
// Coefficients seen through one object, copied out
struct Model {
  Spec sp; Vec phi, theta, PHI, THETA, exog, res; double mean, var, loglik, aic; int retval; int ncoeff, lvcov, Nused, M;
  LVec fphi() const { return ora::expand(ora::L(phi), ora::L(PHI), sp.s); }
  LVec fth() const { return ora::neg(ora::expand(ora::L(theta), ora::L(THETA), sp.s)); }   // plus convention
};
struct Obj {
  Spec sp; arima_object a = 0; sarima_object s = 0; sarimax_object x = 0; In y, xr;
  explicit Obj(const Spec &p) : sp(p), y(p.y, "series"), xr(p.xreg, "xreg") {
    switch (sp.kind) {
      case ARIMA: a = arima_init(sp.p, sp.d, sp.q, sp.N); if (!lazy() || sp.method || sp.opt != 5) setup_a(); break;
      case SARIMA: s = sarima_init(sp.p, sp.d, sp.q, sp.s, sp.P, sp.D, sp.Q, sp.N); if (!lazy() || sp.method || sp.opt != 5) setup_s(); break;
      default: x = sarimax_init(sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q, sp.s, sp.r, sp.imean, sp.N); if (!lazy() || sp.method) sarimax_setMethod(x, sp.method); if (!lazy() || sp.opt != 5) sarimax_setOptMethod(x, sp.opt);
    }
  }
  bool lazy() const { return (sp.N ^ sp.p ^ sp.q) & 1; }   // method 0 and optimiser 5 are the documented defaults and need not be set
  void setup_a() { arima_setMethod(a, sp.method == 3 ? 2 : sp.method == 2 ? 1 : 0); arima_setCSSML(a, sp.method == 1 ? 0 : 1); arima_setOptMethod(a, sp.opt); }
  void setup_s() { sarima_setMethod(s, sp.method == 3 ? 2 : sp.method == 2 ? 1 : 0); sarima_setCSSML(s, sp.method == 1 ? 0 : 1); sarima_setOptMethod(s, sp.opt); }
  Obj(const Obj &) = delete;
  ~Obj() { if (a) arima_free(a); if (s) sarima_free(s); if (x) sarimax_free(x); }
  int exec() { if (a) { arima_exec(a, y); return a->retval; } if (s) { sarima_exec(s, y); return s->retval; } sarimax_exec(x, y, sp.r ? xr.p : nullptr); return x->retval; }
  void predict(int L, double *newx, double *xp, double *am) { if (a) arima_predict(a, y, L, xp, am); else if (s) sarima_predict(s, y, L, xp, am); else sarimax_predict(x, y, sp.r ? xr.p : nullptr, L, newx, xp, am); }
  void vcov(double *v) { if (a) arima_vcov(a, v); else if (s) sarima_vcov(s, v); else sarimax_vcov(x, v); }
  void summary() { if (a) arima_summary(a); else if (s) sarima_summary(s); else sarimax_summary(x); }
  int lvcov() { return a ? a->lvcov : s ? s->lvcov : x->lvcov; }
  bool has_res() const { return true; }
  Model model() {
    Model m; m.sp = sp;
#define CP(o) m.phi.assign(o->phi, o->phi + sp.p); m.theta.assign(o->theta, o->theta + sp.q); m.mean = o->mean; m.var = o->var; m.loglik = o->loglik; m.aic = o->aic; m.retval = o->retval; m.ncoeff = o->ncoeff; m.lvcov = o->lvcov; m.Nused = o->Nused; m.M = o->M; if (has_res()) m.res.assign(o->res, o->res + sp.Nused());
#define CS(o) m.PHI.assign(o->PHI, o->PHI + sp.P); m.THETA.assign(o->THETA, o->THETA + sp.Q);
    if (a) { CP(a) } else if (s) { CP(s) CS(s) } else { CP(x) CS(x) m.exog.assign(x->exog, x->exog + sp.r); }
#undef CP
#undef CS
    return m;
  }
};
// record every result field in the output hash (purity/thread properties)
inline void observe(Ctx &c, const Model &m) {
  c.outi(m.retval); c.outi(m.ncoeff); c.outi(m.lvcov);
  if (m.retval != 1) return;
  c.outv(m.phi.data(), m.phi.size()); c.outv(m.theta.data(), m.theta.size()); c.outv(m.PHI.data(), m.PHI.size()); c.outv(m.THETA.data(), m.THETA.size()); c.outv(m.exog.data(), m.exog.size());
  c.out(m.mean); c.out(m.var); c.out(m.loglik); c.out(m.aic);
  c.outv(m.res.data(), m.res.size());
}
// stationary, regression-adjusted series implied by the coefficients
inline LVec wseries(const Spec &sp, LD mean, const LVec &exog) {
  LVec y = ora::L(sp.y);
  for (int j = 0; j < sp.r; j++) for (int i = 0; i < sp.N; i++) y[i] -= exog[j] * (LD)sp.xreg[j * sp.N + i];
  LVec w = ora::apply(ora::diffpoly(sp.d, sp.D, sp.s), y);
  if (sp.hasmean()) for (auto &v : w) v -= mean;
  return w;
}
// packed parameter vector: phi, theta(subtract convention), PHI, THETA, [mean], exog
inline LVec pack(const Model &m) { LVec v; for (double t : m.phi) v.push_back(t); for (double t : m.theta) v.push_back(t); for (double t : m.PHI) v.push_back(t); for (double t : m.THETA) v.push_back(t); if (m.sp.hasmean()) v.push_back(m.mean); for (double t : m.exog) v.push_back(t); return v; }
struct Eval { LD obj, ssq; LVec u, v; bool ok; LVec e; };
inline Eval eval(const Spec &sp, const LVec &b, bool ml) {
  Eval r; size_t k = 0; LVec phi(b.begin(), b.begin() + sp.p); k = sp.p; LVec th(b.begin() + k, b.begin() + k + sp.q); k += sp.q; LVec PHI(b.begin() + k, b.begin() + k + sp.P); k += sp.P; LVec TH(b.begin() + k, b.begin() + k + sp.Q); k += sp.Q;
  LD mean = 0; if (sp.hasmean()) mean = b[k++]; LVec ex(b.begin() + k, b.end());
  LVec w = wseries(sp, mean, ex), fp = ora::expand(phi, PHI, sp.s), ft = ora::neg(ora::expand(th, TH, sp.s));
  if (ml) { ora::Filt f = ora::filter(fp, ft, w); r.ok = f.ok; r.obj = f.obj; r.ssq = f.ssq; r.u = f.u; r.v = f.v; }
  else { ora::Css f = ora::css(fp, ft, w, sp.p + sp.s * sp.P); r.ok = f.n > 0 && f.ssq > 0; r.obj = f.obj; r.ssq = f.ssq; r.e = f.e; }
  return r;
}
inline bool is_stationary(const Model &m, LD *mg) { LD a, b; bool x = ora::stationary(ora::L(m.phi), &a), y = ora::stationary(ora::L(m.PHI), &b); *mg = std::min(a, b); return x && y; }
inline bool is_invertible(const Model &m, LD *mg) { LD a, b; bool x = ora::stationary(ora::L(m.theta), &a), y = ora::stationary(ora::L(m.THETA), &b); *mg = std::min(a, b); return x && y; }

struct GenOpt { bool kinds[3] = {true, true, true}; int methods = 7; bool allopts = true; int nmin = 50, nmax = 160; int maxp = 3, maxq = 3; double reg = 0.6; bool diff = true; double match = 1.0; int smax = 12; bool rare = true; };
// Series simulated from (nearly) the specified model, so that most fits have an interior optimum.
inline Spec random_spec(Ctx &c, const GenOpt &o) {
  vf::Rng &r = c.rng; Spec sp;
  do sp.kind = (Kind)r.irange(0, 2); while (!o.kinds[sp.kind]);
  sp.N = r.irange(o.nmin, o.nmax);
  sp.p = r.irange(0, o.maxp); sp.q = r.irange(0, o.maxq);
  if (r.chance(0.35)) sp.p = std::min(sp.p, 1);
  if (r.chance(0.35)) sp.q = std::min(sp.q, 1);
  if (o.diff) { sp.d = r.chance(0.45) ? 0 : r.chance(0.8) ? 1 : 2; }
  if (sp.kind != ARIMA) {
    sp.s = r.chance(0.5) ? 4 : r.irange(2, o.smax);
    if (r.chance(0.75)) { sp.P = r.irange(0, 1); sp.Q = r.irange(0, 1); if (r.chance(0.1)) sp.P = 2; if (r.chance(0.1)) sp.Q = 2; if (o.diff) sp.D = r.chance(0.4); }
    if (sp.kind == SARIMAX && sp.P + sp.D + sp.Q == 0) sp.s = 0;
    if (sp.s * (sp.P + sp.Q + sp.D) > 30) sp.N = std::max(sp.N, 4 * sp.s * (sp.P + sp.Q + sp.D));
  }
  // rare regimes: higher differences, long seasons, many regressors, high orders, short and long series
  int rare = o.rare && r.chance(0.12) ? r.irange(1, 7) : 0, rr = 0;
  if (rare == 1 && o.diff) sp.d = 3;
  if (rare == 2 && o.diff && sp.s && sp.s <= 7) { sp.D = 2; sp.P = std::min(sp.P, 1); sp.Q = std::min(sp.Q, 1); }
  if (rare == 3 && sp.s && o.smax >= 12) { sp.s = r.irange(13, 24); sp.p = std::min(sp.p, 1); sp.q = std::min(sp.q, 1); int k = r.irange(0, 2); sp.P = k == 0; sp.Q = k == 1; if (!o.diff) sp.D = 0; else sp.D = k == 2 ? 1 : sp.D && r.chance(0.3); sp.N = std::max(sp.N, 5 * sp.s); }
  if (rare == 4) rr = r.irange(4, 6);
  if (rare == 5 && o.maxp >= 3) { if (r.chance(0.5)) { sp.p = r.irange(4, 7); sp.q = std::min(sp.q, 1); } else { sp.q = r.irange(4, 6); sp.p = std::min(sp.p, 1); } sp.N += 60; }
  if (rare == 6 && sp.s * (sp.P + sp.Q + sp.D) <= 8) sp.N = r.irange(24, 40);
  if (rare == 7 && sp.s * (sp.P + sp.Q + sp.D) <= 12) sp.N = r.irange(300, 700);
  if (rare) { char t[16]; snprintf(t, sizeof t, "rare:%d", rare); c.hit(t); }
  if (sp.p + sp.q + sp.P + sp.Q == 0 && r.chance(0.8)) sp.p = 1;
  if (sp.kind == SARIMAX) { sp.imean = r.chance(0.75); if (r.chance(o.reg)) sp.r = r.irange(1, 3); if (rr && o.reg > 0) sp.r = rr; }
  do sp.method = r.irange(0, 2); while (!((o.methods >> sp.method) & 1));
  if (o.allopts && r.chance(0.5)) sp.opt = r.irange(0, 7);
  if (sp.opt < 4 && std::max(sp.p + sp.s * sp.P, sp.q + sp.s * sp.Q + 1) > 8) sp.opt += 4;   // Hessian-based methods on a large state space take minutes
  // simulate
  double lim = 0.8;
  Vec phi = gen::statcoef(r, sp.p, lim), th = gen::statcoef(r, sp.q, 0.7), PH = gen::statcoef(r, sp.P, 0.7), TH = gen::statcoef(r, sp.Q, 0.6);
  if (!r.chance(o.match)) { if (sp.p) phi.pop_back(); if (r.chance(0.5)) th.clear(); }
  Vec fp = gen::expand(phi, PH, sp.s), ft = gen::expand(th, TH, sp.s); for (auto &v : ft) v = -v;
  Vec w = gen::arma(r, fp, ft, sp.N);
  double sc = r.chance(0.5) ? 1 : std::pow(10.0, r.range(-1.5, 2.5)), mu = r.chance(0.3) ? 0 : r.range(-20, 20) * sc;
  sp.scale = sc;
  for (int k = 0; k < sp.D; k++) w = gen::integrate(w, sp.s, 0.0);
  for (int k = 0; k < sp.d; k++) w = gen::integrate(w, 1, 0.0);
  gen::affine(w, sp.hasmean() || sp.d + sp.D > 0 ? mu : 0, sc);
  if (sp.r) {
    sp.xreg.resize(sp.N * sp.r);
    for (int j = 0; j < sp.r; j++) {
      int k = r.irange(0, 3); double beta = r.range(-3, 3), bs = std::pow(10.0, r.range(-1, 1));
      for (int i = 0; i < sp.N; i++) { double v = k == 0 ? r.norm() : k == 1 ? std::sin(0.37 * (j + 1) * i + j) + 0.2 * r.norm() : k == 2 ? (double)((i / (3 + j)) % 2) + 0.3 * r.norm() : (i ? sp.xreg[j * sp.N + i - 1] / bs + r.norm() : 0.0); sp.xreg[j * sp.N + i] = bs * v; }
      for (int i = 0; i < sp.N; i++) w[i] += beta * sc / bs * sp.xreg[j * sp.N + i];
    }
  }
  sp.y = w;
  return sp;
}
// k-th perturbed copy of a case, for vf::confirmed (k = 0: the case itself)
inline void jitter(Vec &y, int k) {
  if (!k) return;
  vf::Rng q(vf::ctx().idx * 16 + k); double s = 0; for (size_t i = 1; i < y.size(); i++) s += (y[i] - y[i - 1]) * (y[i] - y[i - 1]) / y.size();
  s = 5e-2 * sqrt(s); for (auto &v : y) v += s * q.norm();
}
}  // namespace fit
