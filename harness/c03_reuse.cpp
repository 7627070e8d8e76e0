// C03 (history): an object that has already worked on other data, with other options, beside other live
// objects, gives bit for bit what a fresh object gives.
#include "vf.h"
#include "gen.h"
#include "fit.h"
#include "aa.h"
extern "C" {
#include "ctsa.h"
#include "spectrum.h"
#include "wavelib.h"
#include "regression.h"
#include "optimc.h"
}
const char *vf_driver_name = "c03_reuse";
using namespace fit;
namespace {
struct Tape { Vec v; void d(double x) { v.push_back(x); } void a(const double *p, int n) { for (int i = 0; i < n; i++) v.push_back(p[i]); } };
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
void compare(vf::Ctx &c, const char *key, const char *d, const Tape &fresh, const Tape &used) {
  c.outv(fresh.v.data(), fresh.v.size()); c.outv(used.v.data(), used.v.size());
  if (!c.ok(fresh.v.size() == used.v.size(), key, "%s: %d results from a fresh object, %d from a used one", d, (int)fresh.v.size(), (int)used.v.size())) return;
  for (size_t i = 0; i < fresh.v.size(); i++) if (!c.ok(same(fresh.v[i], used.v[i]), key, "%s: result %d of %d is %.17g from a fresh object and %.17g from one used before", d, (int)i, (int)fresh.v.size(), fresh.v[i], used.v[i])) return;
}
Vec other(vf::Rng &r, const Vec &y, int s) {   // another series of the same length, sometimes one that cannot be fitted
  int n = y.size(), k = r.irange(0, 6); Vec z = gen::series(r, n, s);
  if (k == 0) for (int i = 0; i < n; i++) z[i] = y[i] + 0.3 * z[i];
  if (k == 1) for (int i = 1; i < n; i++) z[i] += z[i - 1];
  if (k == 2) z.assign(n, r.range(-3, 3));
  if (k == 3) for (int i = 0; i < n; i++) z[i] = 1e3 + 50.0 * i + z[i];
  if (k == 4) for (int i = 0; i < n; i++) z[i] = y[n - 1 - i] * 7;
  return z;
}
void run_model(Obj &o, const Spec &sp, In &y, In &x, Tape &t, int L, const Vec &nx, Obj *beside) {
  if (o.a) arima_exec(o.a, y); else if (o.s) sarima_exec(o.s, y); else sarimax_exec(o.x, y, sp.r ? x.p : nullptr);
  Model m = o.model(); t.d(m.retval); t.d(m.ncoeff); t.d(m.lvcov); t.d(m.Nused); t.d(m.M); if (beside) beside->exec(); if (m.retval != 1) return;
  m = o.model(); for (const Vec *v : {&m.phi, &m.theta, &m.PHI, &m.THETA, &m.exog, &m.res}) t.a(v->data(), v->size()); t.d(m.mean); t.d(m.var); t.d(m.loglik); t.d(m.aic);
  In f(nx, "newxreg"); for (int k = 0; k < 2; k++) { Out xp(L, "forecast"), am(L, "mse"); if (o.a) arima_predict(o.a, y, L, xp, am); else if (o.s) sarima_predict(o.s, y, L, xp, am); else sarimax_predict(o.x, y, sp.r ? x.p : nullptr, L, sp.r ? f.p : nullptr, xp, am); t.a(xp, L); t.a(am, L); }
  Out v(m.lvcov, "vcov"); o.vcov(v); t.a(v, m.lvcov);
}
void models(vf::Ctx &c) {
  vf::Rng &r = c.rng; GenOpt g; g.nmin = 30; g.nmax = 100; g.methods = 15; Spec B = random_spec(c, g), A = B; if (B.method == 3 && B.kind == SARIMAX) B.method = A.method = 0; A.y = other(r, B.y, B.s); for (auto &v : A.xreg) v += 0.5 * r.norm();
  if (r.chance(0.6)) { A.method = r.irange(0, B.kind == SARIMAX ? 2 : 3); A.opt = r.irange(0, 7); }
  int L = r.irange(1, 12), L2 = r.irange(1, 12); Vec nx(B.r * 12); for (auto &v : nx) v = r.norm(); Vec nB, nA; for (int j = 0; j < B.r; j++) { nB.insert(nB.end(), nx.begin() + 12 * j, nx.begin() + 12 * j + L); nA.insert(nA.end(), nx.begin() + 12 * j, nx.begin() + 12 * j + L2); }
  c.mix(B.hash()); c.mixv(B.y); c.mixv(A.y); char d[200]; B.describe(d, sizeof d); char h[40]; snprintf(h, sizeof h, " after method=%d opt=%d", A.method, A.opt); strncat(d, h, sizeof d - strlen(d) - 1);
  Tape f, u, w; { Obj o(B); In y(B.y, "series"), x(B.xreg, "xreg"); run_model(o, B, y, x, f, L, nB, nullptr); }
  { Obj o(A); In y(A.y, "series"), x(A.xreg, "xreg"); run_model(o, A, y, x, w, L2, nA, nullptr);
    o.sp.method = B.method; o.sp.opt = B.opt; if (o.a) o.setup_a(); else if (o.s) o.setup_s(); else { sarimax_setMethod(o.x, B.method); sarimax_setOptMethod(o.x, B.opt); }
    Spec Z = A; if (r.chance(0.5)) { Z = random_spec(c, g); if (Z.method == 3) Z.method = 0; } Obj be(Z); bool side = r.chance(0.5); In y2(B.y, "series"), x2(B.xreg, "xreg"); run_model(o, B, y2, x2, u, L, nB, side ? &be : nullptr); }
  c.nontrivial(); c.hit(f.v[0] == 1 ? w.v[0] == 1 ? "model:after-success" : "model:after-failure" : "model:failing"); char k[40]; snprintf(k, sizeof k, "pure:reuse:%s", kname[B.kind]); compare(c, k, d, f, u);
  if (c.idx % 97 == 0) c.sample("%s: %d results equal bit for bit on a fresh and on a used object, first residual-like value %.6g", d, (int)f.v.size(), f.v.back());
}
void tape(Tape &t, const aa::Res &x) { for (int v : {x.p, x.d, x.q, x.P, x.D, x.Q, x.M, x.retval, x.idrift, x.ncoeff, x.lvcov, x.Nused}) t.d(v); if (x.retval == 0) return; for (double v : {x.mean, x.var, x.loglik, x.aic, x.bic, x.aicc, x.sigma2}) t.d(v); for (const Vec *v : {&x.phi, &x.theta, &x.PHI, &x.THETA, &x.exog, &x.res, &x.vcov}) t.a(v->data(), v->size()); }
void set(auto_arima_object a, const aa::Cfg &f) {
  auto_arima_setStepwise(a, f.stepwise); auto_arima_setApproximation(a, f.approx); auto_arima_setStationary(a, f.stationary); auto_arima_setSeasonal(a, f.seasonal); auto_arima_allowMean(a, f.mean); auto_arima_allowDrift(a, f.drift);
  auto_arima_setStationarityParameters(a, aa::TESTN[f.test], f.alpha, aa::TYPEN[f.type]); auto_arima_setSeasonalParameters(a, aa::SEASN[f.seas], f.salpha); a->Order_max = f.omax; a->p_start = f.p0; a->q_start = f.q0; a->P_start = f.P0; a->Q_start = f.Q0; strcpy(a->information_criteria, aa::ICN[f.ic]); }
void autos(vf::Ctx &c) {
  vf::Rng &r = c.rng; aa::Cfg B = aa::random_cfg(c, false), A = B; B.pm = A.pm = std::min(B.pm, 2); B.qm = A.qm = std::min(B.qm, 2); A.y = other(r, B.y, B.s); if (r.chance(0.6)) { A.stepwise = r.chance(0.7); A.approx = r.chance(0.3); A.stationary = r.chance(0.3); A.seasonal = r.chance(0.7); A.mean = r.chance(0.6); A.drift = r.chance(0.6); A.ic = r.irange(0, 2); if (B.N >= 16) A.test = r.irange(0, 2); } A.seas = 0;
  int L = r.irange(1, 8); Vec nx(B.r * L); for (auto &v : nx) v = r.norm(); c.mix(B.hash()); c.mixv(B.y); c.mixv(A.y); char d[260]; B.describe(d, sizeof d); Tape f, u;
  auto go = [&](auto_arima_object a, In &y, In &x, Tape &t, aa::Run &w) { auto_arima_exec(a, y, B.r ? x.p : nullptr); tape(t, w.get()); if (a->retval == 0) return; In n(nx, "newxreg"); Out xp(L, "forecast"), am(L, "mse"); auto_arima_predict(a, y, B.r ? x.p : nullptr, L, B.r ? n.p : nullptr, xp, am); t.a(xp, L); t.a(am, L); };
  { aa::Run w(B); go(w.a, w.y, w.xr, f, w); } { aa::Run w(A); Tape z; go(w.a, w.y, w.xr, z, w); c.hit(z.v[3] + z.v[4] + z.v[5] > 0 ? "auto:after-seasonal" : "auto:after-nonseasonal"); set(w.a, B); In y(B.y, "series"), x(B.xreg, "xreg"); go(w.a, y, x, u, w); }
  c.nontrivial(); compare(c, "pure:reuse:auto_arima", d, f, u);
}
void ars(vf::Ctx &c) {
  vf::Rng &r = c.rng; int method = r.irange(0, 2), N = method == 2 ? r.irange(25, 60) : r.irange(20, 150), L = r.irange(1, 10); Vec b = gen::series(r, N, 0), a = other(r, b, 0); bool cst = true; for (double v : a) cst = cst && v == a[0]; if (cst) a = gen::series(r, N, 0); c.mixv(a); c.mixv(b); c.mix(method); char d[60]; snprintf(d, sizeof d, "ar method %d N=%d", method, N); Tape f, u;
  auto go = [&](ar_object o, const Vec &x, Tape &t) { In xi(x, "series"); ar_exec(o, xi); t.d(o->p); t.d(o->retval); t.a(o->phi, o->p); t.d(o->mean); t.d(o->var); if (method == 2) { t.a(o->res, N); t.d(o->aic); } Out xp(L, "forecast"), am(L, "mse"); ar_predict(o, xi, L, xp, am); t.a(xp, L); t.a(am, L); };
  ar_object o = ar_init(method, N); go(o, b, f); ar_free(o); o = ar_init(method, N); Tape z; go(o, a, z); go(o, b, u); ar_free(o); c.nontrivial(); c.hit(z.v[0] > f.v[0] ? "ar:after-longer" : "ar:after-shorter"); compare(c, "pure:reuse:ar", d, f, u);
}
Vec sig(vf::Rng &r, int n) { Vec x(n); for (auto &v : x) v = r.norm() * 3; return x; }
void transforms(vf::Ctx &c) {
  vf::Rng &r = c.rng; int k = r.irange(0, 4), n = r.chance(0.3) ? r.irange(1, 20) : r.irange(1, 300); char d[80]; Tape f, u; c.nontrivial(); c.mix(k); c.mix(n); c.hit(k == 0 ? "fft" : k == 1 ? "rfft" : k == 2 ? "conv" : k == 3 ? "spectrum" : "autocovariance");
  if (k == 0) { int sg = r.chance(0.5) ? 1 : -1; Vec a = sig(r, 2 * n), b = sig(r, 2 * n); c.mixv(b); std::vector<fft_data> in(n), out(n); auto go = [&](fft_object o, const Vec &x, Tape &t) { for (int i = 0; i < n; i++) { in[i].re = x[2 * i]; in[i].im = x[2 * i + 1]; } fft_exec(o, in.data(), out.data()); for (int i = 0; i < n; i++) { t.d(out[i].re); t.d(out[i].im); } }; snprintf(d, sizeof d, "fft N=%d", n);
    fft_object o = fft_init(n, sg), p = fft_init(n, sg); go(o, b, f); Tape z; go(p, a, z); go(p, b, u); free_fft(o); free_fft(p); compare(c, "pure:reuse:fft", d, f, u); }
  else if (k == 1) { n *= 2; Vec a = sig(r, n), b = sig(r, n); c.mixv(b); std::vector<fft_data> out(n); auto go = [&](fft_real_object o, fft_real_object q, const Vec &x, Tape &t) { In xi(x, "series"); fft_r2c_exec(o, xi, out.data()); for (int i = 0; i < n; i++) { t.d(out[i].re); t.d(out[i].im); } Out y(n, "inverse"); fft_c2r_exec(q, out.data(), y); t.a(y, n); }; snprintf(d, sizeof d, "rfft N=%d", n);
    fft_real_object o[4]; for (int i = 0; i < 4; i++) o[i] = fft_real_init(n, i % 2 ? -1 : 1); go(o[0], o[1], b, f); Tape z; go(o[2], o[3], a, z); go(o[2], o[3], b, u); for (auto q : o) free_real_fft(q); compare(c, "pure:reuse:rfft", d, f, u); }
  else if (k == 2) { int m = r.irange(1, 100); Vec a = sig(r, n), b = sig(r, n), h = sig(r, m), h2 = sig(r, m); c.mixv(b); c.mixv(h); auto go = [&](conv_object o, const Vec &x, const Vec &y, Tape &t) { In xi(x, "signal"), yi(y, "filter"); Out w(n + m - 1, "conv"); conv_fft(o, xi, yi, w); t.a(w, n + m - 1); }; snprintf(d, sizeof d, "conv N=%d L=%d", n, m);
    conv_object o = conv_init(n, m), p = conv_init(n, m); go(o, b, h, f); Tape z; go(p, a, h2, z); go(p, b, h, u); free_conv(o); free_conv(p); compare(c, "pure:reuse:conv", d, f, u); }
  else if (k == 3) { n++; int F = n + r.irange(0, 60), side = r.irange(1, 2), s2 = r.irange(1, 2); Vec a = sig(r, n), b = sig(r, n); c.mixv(b); auto go = [&](spectrum_fft_object o, const Vec &x, int sd, Tape &t) { In xi(x, "series"); int len = sd == 2 ? n : n / 2 + 1, l2 = sd == 2 ? F : F / 2 + 1; Out s(len, "spectrum"), q(len, "frequency"), v(l2, "psd"), w(l2, "frequency"); periodogram(o, xi, s, q, sd); t.a(s, len); t.a(q, len); psd(o, xi, v, w, sd); t.a(v, l2); t.a(w, l2); }; snprintf(d, sizeof d, "spectrum N=%d Nfft=%d", n, F);
    spectrum_fft_object o = spectrum_fft_init(n, F), p = spectrum_fft_init(n, F); go(o, b, side, f); Tape z; go(p, a, s2, z); go(p, b, side, u); free_spectrum(o); free_spectrum(p); compare(c, "pure:reuse:spectrum", d, f, u); }
  else { n++; int F = n + r.irange(0, 60), M = r.irange(1, n); Vec a = sig(r, n), b = sig(r, n); c.mixv(b); auto go = [&](auto_fft_object o, const Vec &x, Tape &t) { In xi(x, "series"); Out g(M, "acvf"); autocovar_fft(o, xi, g, M); t.a(g, M); Out h(M, "acf"); autocorr_fft(o, xi, h, M); t.a(h, M); int l2 = F / 2 + 1; Out v(l2, "psd"), w(l2, "frequency"); psd_autocovar(o, xi, v, w, F, 1); t.a(v, l2); }; snprintf(d, sizeof d, "autocovariance N=%d M=%d", n, M);
    auto_fft_object o = auto_fft_init(n), p = auto_fft_init(n); go(o, b, f); Tape z; go(p, a, z); go(p, b, u); free_auto(o); free_auto(p); compare(c, "pure:reuse:autocovariance", d, f, u); }
}
void wavelets(vf::Ctx &c) {
  vf::Rng &r = c.rng; static const char *W[] = {"haar", "db2", "db4", "db7", "sym4", "sym6", "coif1", "coif2", "bior2.2", "bior4.4", "rbior3.1", "db12"}; const char *wn = W[r.irange(0, 11)]; int k = r.irange(0, 4), N = r.irange(8, 200), J = r.irange(1, (int)std::log((double)N)); if (J < 1) J = 1; if (k == 1) { J = std::min(J, 4); N = (N >> J) << J; if (N < (1 << J)) N = 1 << J; J = std::min(J, (int)std::log((double)N)); } if (k == 2 && wn[0] != 'd' && wn[0] != 's' && wn[0] != 'h' && wn[0] != 'c') wn = "db3";
  wave_object w = wave_init(wn); Vec a = sig(r, N), b = sig(r, N); c.mixv(b); c.mixv(a); c.mix(k * 10 + J); c.nontrivial(); char d[100]; const char *E[] = {"sym", "per"}, *C[] = {"direct", "fft"}; int e1 = r.irange(0, 1), e2 = r.irange(0, 1), c1 = r.irange(0, 1), c2 = r.irange(0, 1); static const char *KN[] = {"dwt", "swt", "modwt", "wtree", "dwpt"}; snprintf(d, sizeof d, "%s %s N=%d J=%d %s/%s after %s/%s", KN[k], wn, N, J, E[e2], C[c2], E[e1], C[c1]); c.hit(KN[k]); Tape f, u, z;
  if (k <= 2) { if (k == 1) e1 = e2 = 1; if (k == 2) { if (!c1) e1 = 1; if (!c2) e2 = 1; } auto go = [&](wt_object t, const Vec &x, int e, int q, Tape &o) { setDWTExtension(t, E[e]); setWTConv(t, C[q]); In xi(x, "signal"); Out y(N, "reconstruction"); if (k == 0) { dwt(t, xi); } else if (k == 1) swt(t, xi); else modwt(t, xi); o.d(t->outlength); o.d(t->lenlength); for (int i = 0; i < t->lenlength; i++) o.d(t->length[i]); o.a(t->output, t->outlength); double *m = k == 0 ? getDWTmra(t, t->output) : k == 1 ? getSWTmra(t, t->output) : getMODWTmra(t, t->output); o.a(m, N * (J + 1)); vf_lib_free(m); if (k == 0) idwt(t, y); else if (k == 1) iswt(t, y); else imodwt(t, y); o.a(y, N); };
    wt_object t = wt_init(w, KN[k], N, J); go(t, b, e2, c2, f); wt_free(t); t = wt_init(w, KN[k], N, J); go(t, a, e1, c1, z); go(t, b, e2, c2, u); wt_free(t); }
  else if (k == 3) { auto go = [&](wtree_object t, const Vec &x, int e, Tape &o) { setWTREEExtension(t, E[e]); In xi(x, "signal"); wtree(t, xi); o.d(t->outlength); o.a(t->output, t->outlength); int nl = getWTREENodelength(t, J); Out y(nl, "node"); getWTREECoeffs(t, J, (1 << J) - 1, y, nl); o.a(y, nl); }; wtree_object t = wtree_init(w, N, J); go(t, b, e2, f); wtree_free(t); t = wtree_init(w, N, J); go(t, a, e1, z); go(t, b, e2, u); wtree_free(t); }
  else { static const char *K[] = {"shannon", "threshold", "norm", "logenergy"}; int k1 = r.irange(0, 3), k2 = r.irange(0, 3); auto go = [&](wpt_object t, const Vec &x, int e, int q, Tape &o) { setDWPTExtension(t, E[e]); setDWPTEntropy(t, K[q], q == 1 ? 0.8 : q == 2 ? 1.5 : 0); In xi(x, "signal"); dwpt(t, xi); o.d(t->outlength); o.d(t->nodes); for (int i = 0; i < 2 * t->nodes; i++) o.d(t->nodeindex[i]); o.a(t->output, t->outlength); Out y(N, "reconstruction"); idwpt(t, y); o.a(y, N); }; wpt_object t = wpt_init(w, N, J); go(t, b, e2, k2, f); wpt_free(t); t = wpt_init(w, N, J); go(t, a, e1, k1, z); go(t, b, e2, k2, u); wpt_free(t); }
  wave_free(w); char key[40]; snprintf(key, sizeof key, "pure:reuse:%s", KN[k]); compare(c, key, d, f, u);
}
void regressions(vf::Ctx &c) {
  vf::Rng &r = c.rng; int p = r.irange(2, 6), N = p + r.irange(3, 60); static const char *M[] = {"qr", "normal", "svd"}; auto mk = [&](Vec &X, Vec &y) { X.resize(N * (p - 1)); for (auto &v : X) v = r.norm() * 2 + 1; y.resize(N); for (int i = 0; i < N; i++) { y[i] = r.norm(); for (int j = 0; j < p - 1; j++) y[i] += 0.5 * X[j * N + i]; } }; Vec X1, y1, X2, y2; mk(X1, y1); mk(X2, y2); int m1 = r.irange(0, 2), m2 = r.irange(0, 2); double a1 = r.chance(0.5) ? 0.05 : 0.1, a2 = r.chance(0.5) ? 0.05 : 0.01; c.mixv(y2); c.mixv(X2); c.nontrivial(); c.hit("regression"); char d[80]; snprintf(d, sizeof d, "regression N=%d p=%d %s after %s", N, p, M[m2], M[m1]); Tape f, u, z; Vec pt(p - 1); for (auto &v : pt) v = r.norm();
  auto go = [&](reg_object o, const Vec &X, const Vec &y, int m, double al, Tape &t) { setLLSMethod(o, (char *)M[m]); In xi(X, "x"), yi(y, "y"), q(pt, "point"); Out res(N, "residuals"), V(p * p, "varcovar"), var(2, "var"); regress(o, xi, yi, res, V, al); t.a(res, N); t.a(V, p * p); for (int i = 0; i < p; i++) { t.d((o->beta + i)->value); t.d((o->beta + i)->lower); t.d((o->beta + i)->upper); t.d((o->beta + i)->stdErr); } t.d(o->sigma); t.d(o->r2); t.d(o->r2adj); t.d(o->sigma_lower); t.d(o->sigma_upper); t.d(o->loglik); t.d(o->aic); t.d(o->bic); t.d(o->aicc); t.d(o->rank); t.d(o->df); t.d(o->FStat); t.d(o->PVal); t.d(o->TSS); t.d(o->ESS); t.d(o->RSS); Out tv(p, "t"), pv(p, "p"); zerohyp_val(o, tv, pv); t.a(tv, p); t.a(pv, p); t.d(fitted(o, q, V, var)); t.a(var, 2); };
  reg_object o = reg_init(N, p); setIntercept(o, 1); go(o, X2, y2, m2, a2, f); free_reg(o); o = reg_init(N, p); setIntercept(o, 1); go(o, X1, y1, m1, a1, z); go(o, X2, y2, m2, a2, u); free_reg(o); compare(c, "pure:reuse:regression", d, f, u);
}
struct Quad { int n; double a[8], b[8], q; };
double qf(double *x, int n, void *p) { Quad *z = (Quad *)p; double s = 0; for (int i = 0; i < n; i++) { double t = x[i] - z->b[i]; s += z->a[i] * t * t + z->q * t * t * t * t; if (i) s += 0.3 * (x[i] - z->b[i]) * (x[i - 1] - z->b[i - 1]); } return s; }
void optims(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = r.irange(2, 6), m1 = r.irange(0, 7), m2 = r.irange(0, 7); Quad A, B; for (Quad *q : {&A, &B}) { q->n = n; q->q = r.chance(0.5) ? r.range(0, 1) : 0; for (int i = 0; i < n; i++) { q->a[i] = r.range(0.5, 5); q->b[i] = r.range(-3, 3); } } Vec s1(n), s2(n); for (auto &v : s1) v = r.range(-4, 4); for (auto &v : s2) v = r.range(-4, 4); c.mixv(s2); c.mixv(s1); c.mix(m1 * 8 + m2); c.nontrivial(); c.hit("optimiser"); char d[80]; snprintf(d, sizeof d, "optimize n=%d method %d after method %d", n, m2, m1); int cut = r.chance(0.3) ? r.irange(1, 6) : 0; Tape f, u, z;
  auto go = [&](opt_object o, Quad &q, const Vec &s, int m, Tape &t) { custom_function cf = {qf, &q}; In xi(s, "start"); optimize(o, &cf, NULL, n, xi, m); t.d(o->retval); t.d(o->Iter); t.d(o->objfunc); t.a(o->xopt, n); };
  opt_object o = opt_init(n); go(o, B, s2, m2, f); int dm = o->MaxIter; double gt = o->gtol, st = o->stol, ft = o->ftol, xt = o->xtol; free_opt(o); o = opt_init(n); if (cut) setMaxIter(o, cut); if (r.chance(0.3)) setTOL(o, 1e-2, 1e-3, 1e-3, 1e-3); go(o, A, s1, m1, z); setMaxIter(o, dm); setTOL(o, gt, st, ft, xt); go(o, B, s2, m2, u); free_opt(o); compare(c, "pure:reuse:optimize", d, f, u);
}
}
void run_case(vf::Ctx &c) { int k = c.rng.irange(0, 99); if (k < 38) models(c); else if (k < 44) autos(c); else if (k < 52) ars(c); else if (k < 70) transforms(c); else if (k < 86) wavelets(c); else if (k < 93) regressions(c); else optims(c); }
