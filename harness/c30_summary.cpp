// C30: printed summaries and the public header show the object's true contents.
#include "aa.h"
extern "C" {
#include "regression.h"
#include "wavelib.h"
#include "optimc.h"
}
#include "c30_fields.h"
const char *vf_driver_name = "c30_summary";
using namespace fit;
#define DECL(n) extern "C" int pub_##n(const void *, double *, const void **, int *);
DECL(arima) DECL(sarima) DECL(sarimax) DECL(auto) DECL(ar)
#define RD_I(f) v[n++] = (double)o->f;
#define RD_D(f) v[n++] = o->f;
#define RD_P(f) p[k++] = (const void *)o->f;
#define READER(name, type, F) static int own_##name(const type *o, double *v, const void **p, int *np) { int n = 0, k = 0; F(RD_I, RD_D, RD_P) *np = k; return n; }
READER(arima, arima_set, F_ARIMA)
READER(sarima, sarima_set, F_SARIMA)
READER(sarimax, sarimax_set, F_SARIMAX)
READER(auto, auto_arima_set, F_AUTO)
READER(ar, ar_set, F_AR)
static bool samev(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template <class T> static void header_agrees(vf::Ctx &c, const char *what, const T *o, int (*own)(const T *, double *, const void **, int *), int (*pub)(const void *, double *, const void **, int *)) {
  double a[64] = {0}, b[64] = {0}; const void *pa[16], *pb[16]; int ka = 0, kb = 0, na = own(o, a, pa, &ka), nb = pub(o, b, pb, &kb); char key[64]; snprintf(key, sizeof key, "header:%s", what);
  if (!c.ok(na == nb && ka == kb, key, "field counts")) return;
  for (int i = 0; i < na; i++) if (!c.ok(samev(a[i], b[i]), key, "%s: field %d reads %.17g through the public header, the library holds %.17g", what, i, b[i], a[i])) return;
  for (int i = 0; i < ka; i++) if (!c.ok(pa[i] == pb[i], key, "%s: pointer field %d differs through the public header", what, i)) return;
}
// ---- captured text
struct Text { std::vector<std::vector<const char *>> line; char *buf = 0; size_t n = 0; Vec raw; ~Text() { free(buf); } Text() {} Text(const Text &) = delete; };
template <class F> static void capture(F f, Text &t) {
  FILE *old = stdout, *m = open_memstream(&t.buf, &t.n); stdout = m; f(); fflush(m); stdout = old; fclose(m);
  char *s = t.buf; std::vector<const char *> cur;
  while (*s) { while (*s == ' ' || *s == '\t') s++; if (*s == '\n') { *s++ = 0; if (!cur.empty()) t.line.push_back(cur); cur.clear(); continue; } if (!*s) break; cur.push_back(s); while (*s && *s != ' ' && *s != '\t' && *s != '\n') s++; if (*s == ' ' || *s == '\t') *s++ = 0; }
  if (!cur.empty()) t.line.push_back(cur);
}
static uint64_t texthash(const Text &t) { uint64_t h = 1; for (auto &l : t.line) { for (auto w : l) for (; *w; w++) h = h * 1099511628211ull + (unsigned char)*w; h = h * 31 + 7; } return h; }
static int find(const Text &t, const char *label, int from = 0) { for (size_t i = from; i < t.line.size(); i++) if (!strcmp(t.line[i][0], label)) return i; return -1; }
static int count(const Text &t, const char *label) { int k = 0; for (auto &l : t.line) if (!strcmp(l[0], label)) k++; return k; }
static int starts(const Text &t, const char *a, const char *b) { for (size_t i = 0; i < t.line.size(); i++) if (!strcmp(t.line[i][0], a) && (!b || (t.line[i].size() > 1 && !strcmp(t.line[i][1], b)))) return i; return -1; }
static bool num(const char *s, double *v) { char *e; *v = strtod(s, &e); return e != s; }
static bool agrees(double printed, double held) { if (held != held) return printed != printed; if (std::isinf(held)) return printed == held; return std::fabs(printed - held) <= 6e-6 * std::fabs(held) + 1e-300; }
static bool agreesf(double printed, double held) { if (held != held) return printed != printed; if (std::isinf(held)) return printed == held; return std::fabs(printed - held) <= 6e-7 + 1e-12 * std::fabs(held); }   // %lf
// line "label value [se]"
static void row(vf::Ctx &c, const Text &t, const char *key, const char *label, int nth, double v, const double *se, const char *d) {
  int l = -1; for (int k = 0; k <= nth; k++) { l = find(t, label, l + 1); if (l < 0) break; }
  if (!c.ok(l >= 0 && t.line[l].size() >= 2, key, "%s: no line '%s' (%d)", d, label, nth)) return;
  double x; if (!c.ok(num(t.line[l][1], &x) && agrees(x, v), key, "%s: '%s' prints %s, the object holds %.10g", d, label, t.line[l][1], v)) return;
  if (se) { double s = *se < 0 ? NAN : sqrt(*se); c.ok(t.line[l].size() >= 3 && num(t.line[l][2], &x) && agrees(x, s), key, "%s: '%s' prints standard error %s, the covariance matrix gives %.10g", d, label, t.line[l].size() >= 3 ? t.line[l][2] : "nothing", s); }
}
static int ints(const std::vector<const char *> &l, int *o, int mx) { int n = 0; for (auto w : l) for (; *w; w++) if (*w >= '0' && *w <= '9') { char *e; long v = strtol(w, &e, 10); if (n < mx) o[n++] = v; w = e - 1; } return n; }
static void labelled(vf::Ctx &c, const Text &t, const char *key, const char *a, const char *b, double v, const char *d) {   // "AIC criterion : value"
  int l = starts(t, a, b); double x; if (!c.ok(l >= 0 && t.line[l].size() >= 4, key, "%s: no line '%s %s'", d, a, b)) return;
  c.ok(num(t.line[l].back(), &x) && agrees(x, v), key, "%s: '%s %s' prints %s, the object holds %.10g", d, a, b, t.line[l].back(), v);
}
static const char *OPTW[8] = {"Nelder-Mead", "Line", "Hook", "Dog-Leg", "Conjugate", "BFGS", "L-BFGS", "More-Thuente"};
static void coefs(vf::Ctx &c, const Text &t, const char *d, int p, int q, int P, int Q, const double *phi, const double *theta, const double *PHI, const double *THETA, const double *vc, int pq) {
  char lb[32]; int k = 0; static const char *nm[4] = {"AR", "MA", "SAR", "SMA"}; int n[4] = {p, q, P, Q}; const double *v[4] = {phi, theta, PHI, THETA};
  for (int g = 0; g < 4; g++) { for (int i = 0; i < n[g]; i++, k++) { snprintf(lb, sizeof lb, "%s%d", nm[g], i + 1); row(c, t, "summary:coefficient", lb, 0, v[g][i], &vc[k + pq * k], d); c.ok(count(t, lb) == 1, "summary:coefficient", "%s: %d lines '%s'", d, count(t, lb), lb); } snprintf(lb, sizeof lb, "%s%d", nm[g], n[g] + 1); c.ok(count(t, lb) == 0, "summary:coefficient", "%s: a line '%s' beyond the order", d, lb); }
}
static void order_line(vf::Ctx &c, const Text &t, const char *d, std::vector<int> want) { int l = -1; for (size_t i = 0; i < t.line.size() && l < 0; i++) for (auto w : t.line[i]) if (!strcmp(w, "Order")) l = i; int o[8]; bool ok = l >= 0; int n = ok ? ints(t.line[l], o, 8) : 0; ok = n == (int)want.size(); for (int i = 0; ok && i < n; i++) ok = o[i] == want[i]; c.ok(ok, "summary:order", "%s: order line shows %d numbers, first %d", d, n, n ? o[0] : -1); }
static void modelling(vf::Ctx &c) {
  vf::Rng &g = c.rng; GenOpt o; o.match = 0.8; o.methods = 7; o.nmin = 30; o.nmax = 90; o.smax = 6; Spec sp = random_spec(c, o); if (sp.opt < 4 && g.chance(0.7)) sp.opt = g.irange(4, 7); if (sp.kind != SARIMAX && g.chance(0.08) && sp.P + sp.D + sp.Q == 0) sp.method = 3;
  if (sp.kind == SARIMAX && sp.r > 1 && g.chance(0.1)) for (int i = 0; i < sp.N; i++) sp.xreg[sp.N + i] = 2 * sp.xreg[i];   // collinear: code 7
  char d[200]; sp.describe(d, sizeof d); Obj ob(sp); ob.exec(); Model m = ob.model(); c.mix(sp.hash()); c.mixv(sp.y);
  Text t, t2; Vec vc(m.lvcov); ob.vcov(vc.data());
  capture([&] { ob.summary(); }, t); capture([&] { ob.summary(); }, t2); c.outi(texthash(t) & 0xffffff);
  char tg[64]; snprintf(tg, sizeof tg, "%s:m%d:ret%d", kname[sp.kind], sp.method, m.retval); c.hit(tg);
  Model m2 = ob.model(); c.ok(texthash(t) == texthash(t2), "summary:repeat", "%s: two summaries differ", d);
  auto eqv = [](const Vec &a, const Vec &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), 8 * a.size()) == 0); };
  c.ok(eqv(m.phi, m2.phi) && eqv(m.theta, m2.theta) && eqv(m.PHI, m2.PHI) && eqv(m.THETA, m2.THETA) && eqv(m.exog, m2.exog) && eqv(m.res, m2.res) && samev(m.mean, m2.mean) && samev(m.var, m2.var) && samev(m.loglik, m2.loglik), "summary:changes-object", "%s", d);
  if (sp.kind == ARIMA) header_agrees(c, "arima", (const arima_set *)ob.a, own_arima, pub_arima); else if (sp.kind == SARIMA) header_agrees(c, "sarima", (const sarima_set *)ob.s, own_sarima, pub_sarima); else header_agrees(c, "sarimax", (const sarimax_set *)ob.x, own_sarimax, pub_sarimax);
  if (VF_NO_ORACLE) return;
  c.nontrivial();
  int pq = sp.ncoef(); if (m.lvcov < pq * pq) { c.fail("summary:vcov-size", "%s", d); return; }
  if (sp.kind == ARIMA) order_line(c, t, d, {sp.p, sp.d, sp.q}); else order_line(c, t, d, {sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q});
  bool bj = sp.method == 3;
  if (!bj) { int l = starts(t, "Return", "Code"), v[2]; if (sp.kind != SARIMAX || ob.x->method < 2) c.ok(l >= 0 && ints(t.line[l], v, 2) == 1 && v[0] == m.retval, "summary:return-code", "%s: return code line wrong, object holds %d", d, m.retval); }
  coefs(c, t, d, sp.p, sp.q, sp.P, sp.Q, m.phi.data(), m.theta.data(), m.PHI.data(), m.THETA.data(), vc.data(), pq);
  int k = sp.p + sp.q + sp.P + sp.Q; if (sp.hasmean()) { row(c, t, "summary:mean", "MEAN", 0, m.mean, &vc[k + pq * k], d); k++; } else row(c, t, "summary:mean", "MEAN", 0, m.mean, nullptr, d);
  c.ok(count(t, "EXOG") == sp.r, "summary:regressors", "%s: %d regressor lines", d, count(t, "EXOG")); for (int j = 0; j < sp.r; j++, k++) row(c, t, "summary:regressors", "EXOG", j, m.exog[j], &vc[k + pq * k], d);
  row(c, t, "summary:variance", "SIGMA^2", 0, m.var, nullptr, d);
  int l = starts(t, "ESTIMATION", "METHOD"); static const char *ME[3][4] = {{"MLE", "MLE", "CSS", "BOX-JENKINS"}, {"MLE", "MLE", "CSS", "BOX-JENKINS"}, {"CSS-MLE", "MLE", "CSS", ""}};
  c.ok(l >= 0 && !strcmp(t.line[l].back(), ME[sp.kind][sp.method]), "summary:method", "%s: estimation method '%s'", d, l >= 0 ? t.line[l].back() : "missing");
  if (!bj) { l = starts(t, "OPTIMIZATION", "METHOD"); bool ok = false; if (l >= 0) for (auto w : t.line[l]) if (!strcmp(w, OPTW[sp.opt])) ok = true; c.ok(ok, "summary:optimiser", "%s: optimisation method '%s'", d, l >= 0 ? t.line[l].back() : "missing"); labelled(c, t, "summary:loglik", "Log", "Likelihood", m.loglik, d); }
  if (sp.method < 2) labelled(c, t, "summary:aic", "AIC", "criterion", m.aic, d);
  else c.ok(starts(t, "AIC", "criterion") < 0, "summary:aic", "%s: prints an AIC that was not computed", d);
  if (c.idx % 97 == 3) c.sample("%s: %zu lines, sigma^2 line '%s'", d, t.line.size(), t.line[find(t, "SIGMA^2") < 0 ? 0 : find(t, "SIGMA^2")][1]);
}
static void automodel(vf::Ctx &c) {
  aa::Cfg f = aa::random_cfg(c, false); f.pm = std::min(f.pm, 2); f.qm = std::min(f.qm, 2); char d[400]; f.describe(d, sizeof d); aa::Run a(f); a.exec(); aa::Res x = a.get(); c.mix(f.hash()); c.mixv(f.y); Text t; capture([&] { auto_arima_summary(a.a); }, t); c.outi(texthash(t) & 0xffffff);
  header_agrees(c, "auto_arima", (const auto_arima_set *)a.a, own_auto, pub_auto); if (VF_NO_ORACLE || x.retval == 0) return; c.nontrivial(); c.hit(x.idrift ? f.r ? "auto:drift:xreg" : "auto:drift" : f.r ? "auto:xreg" : "auto");
  order_line(c, t, d, {x.p, x.d, x.q, x.P, x.D, x.Q}); int pq = x.ncoeff; coefs(c, t, d, x.p, x.q, x.P, x.Q, x.phi.data(), x.theta.data(), x.PHI.data(), x.THETA.data(), x.vcov.data(), pq);
  int k = x.p + x.q + x.P + x.Q; bool hm = x.M - x.r - x.idrift > 0; row(c, t, "auto:mean", "MEAN", 0, x.mean, hm ? &x.vcov[k + pq * k] : nullptr, d); if (hm) k++;
  else { int l = find(t, "MEAN"); if (l >= 0) c.ok(t.line[l].size() == 2, "auto:mean", "%s: prints a standard error for a mean that is not in the model", d); }
  if (x.idrift) { row(c, t, "auto:trend", "TREND", 0, x.exog[0], &x.vcov[k + pq * k], d); k++; } else { int l = find(t, "TREND"); if (l >= 0) row(c, t, "auto:trend", "TREND", 0, 0.0, nullptr, d); }
  c.ok(count(t, "EXOG") == x.r, "auto:regressors", "%s: %d regressor lines", d, count(t, "EXOG")); for (int j = 0; j < x.r; j++, k++) row(c, t, "auto:regressors", "EXOG", j, x.exog[x.idrift + j], &x.vcov[k + pq * k], d);
  row(c, t, "auto:variance", "SIGMA^2", 0, x.sigma2, nullptr, d); labelled(c, t, "auto:criteria", "AIC", "criterion", x.aic, d); labelled(c, t, "auto:criteria", "BIC", "criterion", x.bic, d); labelled(c, t, "auto:criteria", "AICC", "criterion", x.aicc, d); labelled(c, t, "auto:loglik", "Log", "Likelihood", x.loglik, d);
  int l = starts(t, "Return", "Code"), v[2]; c.ok(l >= 0 && ints(t.line[l], v, 2) == 1 && v[0] == x.retval, "auto:return-code", "%s", d);
  l = starts(t, "Stepwise:", nullptr); c.ok(l >= 0 && !strcmp(t.line[l].back(), f.stepwise ? "TRUE" : "FALSE"), "auto:options", "%s: stepwise line", d); l = starts(t, "Approximation:", nullptr); c.ok(l >= 0 && !strcmp(t.line[l].back(), f.approx ? "TRUE" : "FALSE"), "auto:options", "%s: approximation line", d);
}
static void armodel(vf::Ctx &c) {
  vf::Rng &g = c.rng; int n = g.irange(30, 200), me = g.irange(0, 2); Vec y = gen::series(g, n); gen::affine(y, g.range(-20, 20), std::pow(10.0, g.range(-1, 2))); if (me == 2) { n = std::min(n, 60); y.resize(n); }
  ar_object o = ar_init(me, n); { In yi(y, "series"); ar_exec(o, yi); } Text t; capture([&] { ar_summary(o); }, t); c.outi(texthash(t) & 0xffffff); header_agrees(c, "ar", (const ar_set *)o, own_ar, pub_ar); c.mixv(y); c.mix(me); c.hit("ar");
  if (!VF_NO_ORACLE) { c.nontrivial(); char d[64], lb[16]; snprintf(d, sizeof d, "ar method %d N=%d p=%d", me, n, o->p); order_line(c, t, d, {o->p}); for (int i = 0; i <= o->p; i++) { snprintf(lb, sizeof lb, "AR%d", i + 1); if (i < o->p) row(c, t, "ar:coefficient", lb, 0, o->phi[i], nullptr, d); c.ok(count(t, lb) == (i < o->p), "ar:coefficient", "%s: %d lines %s", d, count(t, lb), lb); } row(c, t, "ar:mean", "MEAN", 0, o->mean, nullptr, d); row(c, t, "ar:variance", "SIGMA^2", 0, o->var, nullptr, d);
    static const char *W[3] = {"Walker", "Burg", "MLE"}; int l = starts(t, "ESTIMATION", "METHOD"); c.ok(l >= 0 && !strcmp(t.line[l].back(), W[me]), "ar:method", "%s", d); }
  ar_free(o);
}
// model_estimate: Hannan-Rissanen fits of every (p,q) up to pmax on the differenced, centred series
static void ordertable(vf::Ctx &c) {
  vf::Rng &g = c.rng; int n = g.irange(40, 200), dd = g.irange(0, 2), pm = g.irange(1, 3), h = g.irange(std::max(pm, 2), 9); Vec y = gen::series(g, n); for (int k = 0; k < dd; k++) y = gen::integrate(y, 1, 0.0); n = y.size(); gen::affine(y, g.range(-20, 20), std::pow(10.0, g.range(-1, 2)));
  Text t; { In yi(y, "series"); capture([&] { model_estimate(yi, n, dd, pm, h); }, t); } c.outi(texthash(t) & 0xffffff); c.mixv(y); c.mix(dd * 100 + pm * 10 + h); c.hit("order-table"); if (VF_NO_ORACLE) return;
  LVec w = ora::apply(ora::diffpoly(dd, 0, 0), ora::L(y)); int N = w.size(); LD m = 0; for (LD v : w) m += v; m /= N; for (LD &v : w) v -= m; char d[80]; snprintf(d, sizeof d, "model_estimate N=%d d=%d pmax=%d h=%d", n, dd, pm, h);
  LVec ga(h + 1); for (int k = 0; k <= h; k++) { LD s = 0; for (int i = 0; i + k < N; i++) s += w[i] * w[i + k]; ga[k] = s / N; } std::vector<LVec> T(h, LVec(h)); LVec rhs(h), ph; for (int i = 0; i < h; i++) { rhs[i] = ga[i + 1]; for (int j = 0; j < h; j++) T[i][j] = ga[std::abs(i - j)]; } if (!(ga[0] > 0) || !ora::solve(T, rhs, ph)) { c.inconclusive("oracle"); return; }
  LVec a(N, 0); for (int i = h; i < N; i++) { a[i] = w[i]; for (int j = 0; j < h; j++) a[i] -= ph[j] * w[i - j - 1]; }
  int rows = 0; double best[3] = {INFINITY, INFINITY, INFINITY}; bool skip = false;
  for (int p = 0; p <= pm; p++) for (int q = 0; q <= pm; q++) { int k = p + q; if (!k) continue; std::vector<LVec> A(k, LVec(k, 0)); LVec b(k, 0), x; LD yy = 0; auto X = [&](int i, int j) { return j < p ? w[i - 1 - j] : -a[i - 1 - (j - p)]; };
    for (int i = h + q; i < N; i++) { yy += w[i] * w[i]; for (int u = 0; u < k; u++) { b[u] += X(i, u) * w[i]; for (int v = 0; v < k; v++) A[u][v] += X(i, u) * X(i, v); } } if (!ora::solve(A, b, x)) { skip = true; continue; } LD s = 0; for (int i = h + q; i < N; i++) { LD e = w[i]; for (int u = 0; u < k; u++) e -= X(i, u) * x[u]; s += e * e; }
    if (!(s > 1e-9L * yy)) { skip = true; continue; } LD lv = logl(s / (N - h - q)); double want[3] = {(double)(lv + 2.0L * k / N), (double)(lv + logl(N) * k / N), (double)(lv + 2 * logl(logl(N)) * k / N)}; for (int z = 0; z < 3; z++) best[z] = std::min(best[z], want[z]);
    bool found = false; for (auto &l : t.line) if (l.size() == 15 && !strcmp(l[0], "p") && atoi(l[2]) == p && atoi(l[5]) == q) { found = true; rows++; for (int z = 0; z < 3; z++) { double got; c.ok(num(l[8 + 3 * z], &got) && std::fabs(got - want[z]) <= 2e-5 * (1 + std::fabs(want[z])), "order-table:criterion", "%s: p=%d q=%d prints %s, Hannan-Rissanen fit of the differenced series gives %.8g", d, p, q, l[8 + 3 * z], want[z]); } }
    c.ok(found, "order-table:rows", "%s: no line for p=%d q=%d", d, p, q); }
  if (skip) { c.inconclusive("degenerate"); return; } c.nontrivial(); c.ok(rows == (pm + 1) * (pm + 1) - 1, "order-table:rows", "%s: %d lines", d, rows);
  static const char *E[3] = {"AIC", "SC", "HQ"}; for (int z = 0; z < 3; z++) { int l = starts(t, E[z], "Estimate"), v[2]; if (!c.ok(l >= 0 && ints(t.line[l], v, 2) == 2, "order-table:choice", "%s: no %s line", d, E[z])) continue; for (auto &q : t.line) { double got; if (q.size() == 15 && !strcmp(q[0], "p") && atoi(q[2]) == v[0] && atoi(q[5]) == v[1] && num(q[8 + 3 * z], &got)) c.ok(got <= best[z] + 3e-5 * (1 + std::fabs(best[z])), "order-table:choice", "%s: %s chooses p=%d q=%d with %g, the smallest is %.8g", d, E[z], v[0], v[1], got, best[z]); } }
}
static void regressions(vf::Ctx &c) {
  vf::Rng &g = c.rng; int k = g.irange(1, 4), n = g.irange(k + 5, 60); Vec x(k * n), y(n); for (auto &v : x) v = g.norm(); double sc = std::pow(10.0, g.range(-1, 2)); for (int i = 0; i < n; i++) { y[i] = sc * (3 + g.norm()); for (int j = 0; j < k; j++) y[i] += sc * (j - 1) * x[j * n + i]; }
  reg_object o = reg_init(n, k + 1); In xi(x, "x"), yi(y, "y"); Out re(n, "res"), vc((k + 1) * (k + 1), "varcovar"); regress(o, xi, yi, re, vc, 0.95); Text t, a, ci; capture([&] { summary(o); }, t); capture([&] { anova(o); }, a); capture([&] { confint(o); }, ci); c.outi(texthash(t) & 0xffffff); c.mixv(y); c.hit("regression"); 
  if (!VF_NO_ORACLE) { c.nontrivial(); char d[64], lb[16]; snprintf(d, sizeof d, "regression p=%d N=%d", k + 1, n); double v;
    for (int i = 0; i <= k + 1; i++) { snprintf(lb, sizeof lb, "B%d", i); int l = find(t, lb), m = find(ci, lb); if (i > k) { c.ok(l < 0 && m < 0, "reg:coefficient", "%s: a line %s beyond the coefficients", d, lb); continue; }
      auto &b = o->beta[i]; c.ok(l >= 0 && t.line[l].size() == 3 && num(t.line[l][1], &v) && agreesf(v, b.value) && num(t.line[l][2], &v) && agrees(v, b.stdErr), "reg:coefficient", "%s: line %s does not show %.8g (%.8g)", d, lb, b.value, b.stdErr);
      c.ok(m >= 0 && ci.line[m].size() == 4 && num(ci.line[m][1], &v) && agreesf(v, b.value) && num(ci.line[m][2], &v) && agreesf(v, b.lower) && num(ci.line[m][3], &v) && agreesf(v, b.upper), "reg:interval", "%s: line %s does not show %.8g [%.8g, %.8g]", d, lb, b.value, b.lower, b.upper); }
    int l = starts(t, "Residual", "Variance"); c.ok(l >= 0 && num(t.line[l].back(), &v) && agreesf(v, o->sigma), "reg:variance", "%s", d); l = starts(t, "R-Squared", nullptr); double r1, r2; c.ok(l >= 0 && t.line[l].size() >= 8 && num(t.line[l][2], &r1) && agreesf(r1, o->r2) && num(t.line[l].back(), &r2) && agreesf(r2, o->r2adj), "reg:r2", "%s", d);
    l = starts(ci, "Residual", "Variance"); c.ok(l >= 0 && ci.line[l].size() == 5 && num(ci.line[l][2], &v) && agreesf(v, o->sigma) && num(ci.line[l][3], &v) && agreesf(v, o->sigma_lower) && num(ci.line[l][4], &v) && agreesf(v, o->sigma_upper), "reg:variance", "%s: interval line", d);
    const char *rows[3] = {"Regression", "Residual", "Total"}; for (int w = 0; w < 3; w++) { int q = -1; for (size_t i = 0; i < a.line.size(); i++) { if (w < 2 ? a.line[i].size() == 6 && !strcmp(a.line[i][2], rows[w]) : !strcmp(a.line[i][0], "Total")) q = i; } int df = w == 0 ? o->df_ESS : w == 1 ? o->df_RSS : o->df_ESS + o->df_RSS; double ss = w == 0 ? o->ESS : w == 1 ? o->RSS : o->TSS; int b = w < 2 ? 3 : 1;
      c.ok(q >= 0 && (int)a.line[q].size() >= b + 2 && num(a.line[q][b], &v) && v == df && num(a.line[q][b + 1], &v) && agreesf(v, ss), "reg:anova", "%s: row %s", d, rows[w]); if (q >= 0 && w < 2 && (int)a.line[q].size() > b + 2) c.ok(num(a.line[q][b + 2], &v) && agreesf(v, ss / df), "reg:anova", "%s: mean square of %s", d, rows[w]); }
    l = starts(a, "F", "Statistics"); c.ok(l >= 0 && num(a.line[l].back(), &v) && agrees(v, o->FStat), "reg:anova", "%s: F", d); l = starts(a, "P", "Value"); c.ok(l >= 0 && num(a.line[l].back(), &v) && agrees(v, o->PVal), "reg:anova", "%s: p value", d); }
  free_reg(o);
}
static void filterline(vf::Ctx &c, const Text &t, const char *lb, const double *w, int n, const char *d) {
  int l = find(t, lb); bool ok = l >= 0 && t.line[l].size() == 3; int k = 0; if (ok) { const char *s = t.line[l][2]; if (*s == '[') s++; while (*s && *s != ']') { char *e; double v = strtod(s, &e); if (e == s) { ok = false; break; } if (k < n && !agrees(v, w[k])) ok = false; k++; s = *e == ',' ? e + 1 : e; } ok = ok && k == n; } c.ok(ok, "wave:filter", "%s: filter line %s shows %d numbers of %d or wrong values", d, lb, k, n);
}
static void accesses(vf::Ctx &c, const Text &t, std::vector<std::vector<int>> want, const char *head, const char *d) {   // "Level 3 Access : output[0] Length : 20"
  std::vector<std::vector<int>> got; for (auto &l : t.line) if (!strcmp(l[0], head) && l.size() > 3) { int v[6]; int n = ints(l, v, 6); got.push_back(std::vector<int>(v, v + n)); } c.ok(got == want, "wave:layout", "%s: %zu layout lines, expected %zu", d, got.size(), want.size());
}
static void wavelets(vf::Ctx &c) {
  vf::Rng &g = c.rng; static const char *W[] = {"haar", "db2", "db4", "sym4", "coif1", "bior2.2", "db7"}; const char *wn = W[g.irange(0, 6)]; int n = g.irange(20, 200), J = g.irange(1, 3), kind = g.irange(0, 4); if (kind == 1 || kind == 2) { n = (n / 8 + 1) * 8; if (kind == 2 && !strncmp(wn, "bior", 4)) wn = "db2"; } Vec x(n); for (auto &v : x) v = g.norm();
  wave_object w = wave_init(wn); Text t; In xi(x, "signal"); char d[80]; snprintf(d, sizeof d, "%s kind %d N=%d J=%d", wn, kind, n, J); std::vector<std::vector<int>> lay; c.mixv(x); c.mix(kind * 8 + J); int lv[4] = {-1, n, J, -1};
  auto one = [&](const char *a, int word, const char *want) { int l = -1; for (size_t i = 0; i < t.line.size(); i++) if (!strcmp(t.line[i][0], a) && t.line[i].size() > 2 && strcmp(t.line[i][1], "Coefficients") && strcmp(t.line[i][1], "Filters")) { l = i; if (!word || !strcmp(t.line[i][1], "Transform")) break; } c.ok(l >= 0 && !strcmp(t.line[l].back(), want), "wave:text", "%s: line '%s' ends in %s, expected %s", d, a, l >= 0 ? t.line[l].back() : "nothing", want); };
  auto three = [&](int out) { int l = starts(t, "Length", "of"), v[2]; int k = 0; for (auto &q : t.line) if (!strcmp(q[0], "Length")) { ints(q, v, 2); c.ok(v[0] == (k == 0 ? n : out), "wave:length", "%s: length line shows %d", d, v[0]); k++; } c.ok(k == 2, "wave:length", "%s: %d length lines", d, k); l = starts(t, "Number", "of"); for (auto &q : t.line) if (!strcmp(q[0], "Number") && q.size() > 2 && !strcmp(q[2], "Decomposition")) { ints(q, v, 2); c.ok(v[0] == J, "wave:levels", "%s: shows %d levels", d, v[0]); } };
  c.nontrivial();
  if (kind <= 2) { static const char *M[] = {"dwt", "swt", "modwt"}; wt_object o = wt_init(w, M[kind], n, J); const char *ext = kind == 0 && g.chance(0.5) ? "sym" : "per"; setDWTExtension(o, ext); const char *cm = g.chance(0.5) && kind != 2 ? "fft" : "direct"; setWTConv(o, cm); if (kind == 0) dwt(o, xi); else if (kind == 1) swt(o, xi); else modwt(o, xi);
    capture([&] { wt_summary(o); }, t); c.outi(texthash(t) & 0xffffff); c.hit(M[kind]); if (!VF_NO_ORACLE) { int p = o->length[0]; lay.push_back({J, 0, o->length[0]}); for (int i = 0; i < J; i++) { lay.push_back({J - i, p, o->length[i + 1]}); p += o->length[i + 1]; } accesses(c, t, lay, "Level", d); three(o->outlength); one("Wavelet", 1, M[kind]); one("Signal", 0, ext); one("Convolutional", 0, cm); c.ok(p == o->outlength, "wave:covers", "%s: lengths add up to %d, output holds %d", d, p, o->outlength); }
    wt_free(o); }
  else if (kind == 3) { wtree_object o = wtree_init(w, n, J); const char *ext = g.chance(0.5) ? "sym" : "per"; setWTREEExtension(o, ext); wtree(o, xi); capture([&] { wtree_summary(o); }, t); c.outi(texthash(t) & 0xffffff); c.hit("wtree"); if (!VF_NO_ORACLE) { int k = 0; for (int i = 1; i <= J; i++) for (int q = 0; q < (1 << i); q++, k++) lay.push_back({i, q, o->nodelength[k], o->length[J - i + 1]}); accesses(c, t, lay, "Node", d); three(o->outlength); one("Signal", 0, ext); } wtree_free(o); }
  else { wpt_object o = wpt_init(w, n, J); const char *ext = g.chance(0.5) ? "sym" : "per"; setDWPTExtension(o, ext); dwpt(o, xi); capture([&] { wpt_summary(o); }, t); c.outi(texthash(t) & 0xffffff); c.hit("wpt"); if (!VF_NO_ORACLE) { three(o->outlength); one("Signal", 0, ext); int p = 0, nodes = 0; for (auto &q : t.line) if (!strcmp(q[0], "Node")) { int v[6]; ints(q, v, 6); c.ok(v[2] == p && v[3] == o->length[J - v[0] + 1], "wave:layout", "%s: node %d %d at %d length %d", d, v[0], v[1], v[2], v[3]); p += v[3]; nodes++; } bool root = o->nodes == 1 && o->nodeindex[0] == 0; c.ok((nodes == 0 && root) || (p == o->outlength && nodes == o->nodes), "wave:covers", "%s: %d nodes cover %d of %d", d, nodes, p, o->outlength); if (!root) for (auto &q : t.line) if (!strcmp(q[0], "Node")) { int v[6]; ints(q, v, 6); bool in = false; for (int i = 0; i < o->nodes; i++) in = in || (o->nodeindex[2 * i] == v[0] && o->nodeindex[2 * i + 1] == v[1]); if (!c.ok(in, "wave:node", "%s: node %d %d is not in the basis", d, v[0], v[1])) break; } } wpt_free(o); }
  if (!VF_NO_ORACLE) { filterline(c, t, "lpd", w->lpd, w->lpd_len, d); filterline(c, t, "hpd", w->hpd, w->hpd_len, d); filterline(c, t, "lpr", w->lpr, w->lpr_len, d); filterline(c, t, "hpr", w->hpr, w->hpr_len, d); one("Wavelet", 0, wn); }
  wave_free(w);
}
static double quad(double *x, int n, void *) { double s = 0; for (int i = 0; i < n; i++) s += (i + 1) * (x[i] - i) * (x[i] - i); return s + 2.5; }
static void optimiser(vf::Ctx &c) {
  vf::Rng &g = c.rng; int n = g.irange(1, 5), me = g.irange(0, 7); opt_object o = opt_init(n); Vec x0(n); for (auto &v : x0) v = 3 * g.norm(); custom_function f = {quad, 0}; In xi(x0, "x0"); optimize(o, &f, nullptr, n, xi, me); Text t; capture([&] { optsummary(o); }, t); c.outi(texthash(t) & 0xffffff); c.mixv(x0); c.mix(me); c.hit("optimiser");
  if (!VF_NO_ORACLE) { c.nontrivial(); char d[40]; snprintf(d, sizeof d, "optimiser method %d n=%d", me, n); int v[4]; double x; int l = starts(t, "Return", "Value"); c.ok(l >= 0 && ints(t.line[l], v, 2) && v[0] == o->retval, "opt:return", "%s", d); l = starts(t, "Method", nullptr); c.ok(l >= 0 && ints(t.line[l], v, 4) >= 1 && v[0] == me, "opt:method", "%s", d); l = starts(t, "Iterations", nullptr); c.ok(l >= 0 && ints(t.line[l], v, 2) && v[0] == o->Iter, "opt:iterations", "%s", d);
    l = starts(t, "Function", "Minimized"); bool ok = l >= 0; int k = 0; if (ok) for (size_t i = 5; i < t.line[l].size(); i++) if (num(t.line[l][i], &x)) { if (k < n && !agrees(x, o->xopt[k])) ok = false; k++; } c.ok(ok && k == n, "opt:point", "%s: %d values", d, k); l = starts(t, "Function", "Value"); c.ok(l >= 0 && num(t.line[l].back(), &x) && agrees(x, o->objfunc), "opt:value", "%s", d); }
  free_opt(o);
}
void run_case(vf::Ctx &c) { int k = c.rng.irange(0, 99); if (k < 50) modelling(c); else if (k < 58) automodel(c); else if (k < 63) armodel(c); else if (k < 68) ordertable(c); else if (k < 78) regressions(c); else if (k < 94) wavelets(c); else optimiser(c); }
