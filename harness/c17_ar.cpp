// C17: Yule-Walker, Burg, innovations, Hannan-Rissanen and maximum likelihood AR estimators; AR objects.
#include "vf.h"
#include "gen.h"
#include "arma.h"
extern "C" {
#include "ctsa.h"
#include "boxjenkins.h"
}
const char *vf_driver_name = "c17_ar";
static LVec acov(const LVec &x, int M) { int n = x.size(); LD m = 0; for (LD v : x) m += v; m /= n; LVec g(M); for (int k = 0; k < M; k++) { LD s = 0; for (int t = 0; t + k < n; t++) s += (x[t] - m) * (x[t + k] - m); g[k] = s / n; } return g; }
struct AR { LVec phi; LD var; LD cond; };
static std::vector<AR> yw_all(const LVec &x, int M) { LVec g = acov(x, M + 1), a(M), b; std::vector<AR> o; LD v = g[0]; for (int k = 1; k <= M; k++) { LD s = g[k]; for (int j = 1; j < k; j++) s -= a[j - 1] * g[k - j]; LD f = s / v; b = a; for (int j = 1; j < k; j++) a[j - 1] = b[j - 1] - f * b[k - 1 - j]; a[k - 1] = f; v *= 1 - f * f; o.push_back({LVec(a.begin(), a.begin() + k), v, g[0] / v}); } return o; }
static std::vector<AR> burg_all(const LVec &x, int M) {
  int n = x.size(); LVec f = x, b = x, a(M), a0; std::vector<AR> o; LD p0 = 0; for (LD v : x) p0 += v * v; LD cond = 1;
  for (int k = 1; k <= M; k++) { LD num = 0, den = 0; for (int t = k; t < n; t++) { num += f[t] * b[t - 1]; den += f[t] * f[t] + b[t - 1] * b[t - 1]; } LD r = 2 * num / den; a0 = a; for (int j = 1; j < k; j++) a[j - 1] = a0[j - 1] - r * a0[k - 1 - j]; a[k - 1] = r; cond /= 1 - r * r;
    LVec f2 = f, b2 = b; LD s = 0; for (int t = k; t < n; t++) { f2[t] = f[t] - r * b[t - 1]; b2[t] = b[t - 1] - r * f[t]; s += f2[t] * f2[t] + b2[t] * b2[t]; } f = f2; b = b2; o.push_back({LVec(a.begin(), a.begin() + k), s / (2 * (n - k)), cond}); }
  return o;
}
static void cmpar(vf::Ctx &c, const char *key, const double *phi, double v, const AR &w, const char *d) {
  double tol = 1e-9 + 1e-13 * (double)(w.cond * w.cond); if (tol > 1e-3) { c.hit("skip:ill-conditioned"); return; } char k2[80];
  LD sc = 1; for (LD q : w.phi) sc = std::max(sc, fabsl(q));
  snprintf(k2, sizeof k2, "%s:coefficients", key); for (size_t i = 0; i < w.phi.size(); i++) if (!c.ok(std::fabs(phi[i] - (double)w.phi[i]) <= tol * (double)sc, k2, "%s order %zu phi[%zu]=%.12g want %.12Lg", d, w.phi.size(), i, phi[i], w.phi[i])) return;
  snprintf(k2, sizeof k2, "%s:variance", key); c.ok(std::fabs(v - (double)w.var) <= tol * 10 * (double)w.var, k2, "%s order %zu variance %.12g want %.12Lg", d, w.phi.size(), v, w.var);
}
static void lowlevel(vf::Ctx &c) {
  vf::Rng &r = c.rng; int N = r.irange(30, 300); std::string nm; Vec x = gen::series(r, N, 0, &nm); double b = std::pow(10.0, r.range(-2, 2)), a0 = r.chance(0.5) ? 0 : b * r.range(-5, 5); gen::affine(x, a0, b);
  int p = r.irange(1, std::min(15, N / 5)); c.mixv(x); c.mix(p); c.nontrivial(); In xi(x, "series"); char d[100]; snprintf(d, sizeof d, "%s N=%d p=%d", nm.c_str(), N, p); LVec xl = ora::L(x);
  auto Y = yw_all(xl, p); auto B = burg_all(xl, p);
  { Out ph(p, "phi"), v(1, "var"); yw(xi, N, p, ph, v); c.outv(ph, p); c.out(v[0]); cmpar(c, "yw", ph, v[0], Y[p - 1], d); }
  { Out ph(p, "phi"), v(1, "var"); burg(xi, N, p, ph, v); c.outv(ph, p); c.out(v[0]); cmpar(c, "burg", ph, v[0], B[p - 1], d); }
  { Out ph(p, "phi"); ywalg(xi, N, p, ph); c.outv(ph, p); cmpar(c, "ywalg", ph, (double)Y[p - 1].var, Y[p - 1], d); }
  for (int m = 0; m < 2; m++) { Out ph(p, "phi"), v(1, "var"); ar(xi, N, p, m, ph, v); c.outv(ph, p); c.out(v[0]); cmpar(c, m ? "ar:burg" : "ar:yule-walker", ph, v[0], m ? B[p - 1] : Y[p - 1], d); }
  { // innovations algorithm: unit lower triangular factor of the covariance matrix
    int n = r.irange(1, std::min(20, N / 2)), w = n + 1; Out v(w, "v"), th(w * w, "theta"); innalg(xi, N, n, v, th); c.outv(v, w); c.outv(th, w * w);
    LVec g = acov(xl, w); std::vector<LVec> Lm(w, LVec(w, 0)); LVec D(w); bool ok = true;
    for (int i = 0; i < w && ok; i++) { for (int j = 0; j < i; j++) { LD s = g[i - j]; for (int k = 0; k < j; k++) s -= Lm[i][k] * Lm[j][k] * D[k]; Lm[i][j] = s / D[j]; } LD s = g[0]; for (int k = 0; k < i; k++) s -= Lm[i][k] * Lm[i][k] * D[k]; D[i] = s; ok = s > 1e-9L * g[0]; }
    if (ok) { double tol = 1e-9 + 1e-13 * (double)(g[0] / D[n]) * (double)(g[0] / D[n]); c.hit("innalg");
      for (int i = 0; i < w; i++) { if (!c.ok(std::fabs(v[i] - (double)D[i]) <= tol * (double)g[0], "innovations:variance", "%s v[%d]=%.12g want %.12Lg", d, i, v[i], D[i])) break; bool br = false; for (int j = 1; j <= i; j++) if (!c.ok(std::fabs(th[i * w + j] - (double)Lm[i][i - j]) <= tol * 10, "innovations:coefficients", "%s theta[%d][%d]=%.12g want %.12Lg", d, i, j, th[i * w + j], Lm[i][i - j])) { br = true; break; } if (br) break; }
      int q = r.irange(1, n); Out mq(q, "theta"); ma_inn(xi, N, q, mq, n); c.outv(mq, q); for (int j = 1; j <= q; j++) if (!c.ok(std::fabs(mq[j - 1] + (double)Lm[n][n - j]) <= tol * 10, "innovations:ma", "%s q=%d theta[%d]=%.12g want %.12Lg", d, q, j, mq[j - 1], -Lm[n][n - j])) break; } }
  { // Hannan-Rissanen: regression on lagged values and long-AR residuals
    int hp = r.irange(0, 3), hq = r.irange(hp ? 0 : 1, 3), pq = hp + hq; if (N < 40) return; Out ph(hp, "phi"), th(hq, "theta"), v(1, "var"); hr(xi, N, hp, hq, ph, th, v); c.outv(ph, hp); c.outv(th, hq); c.out(v[0]);
    int m = std::max(hp, hq); m = (m < 10 && N > hp + hq + 20) ? 10 : m + 1; LVec y = xl; LD mu = 0; for (LD q : y) mu += q; mu /= N; for (LD &q : y) q -= mu; AR L = yw_all(y, m)[m - 1]; LVec e(N, 0); for (int t = m; t < N; t++) { e[t] = y[t]; for (int i = 0; i < m; i++) e[t] -= L.phi[i] * y[t - 1 - i]; }
    std::vector<LVec> A(pq, LVec(pq, 0)); LVec bb(pq, 0), s; for (int t = m + hq; t < N; t++) { LVec z(pq); for (int j = 0; j < hp; j++) z[j] = y[t - 1 - j]; for (int j = 0; j < hq; j++) z[hp + j] = -e[t - 1 - j]; for (int i = 0; i < pq; i++) { for (int j = 0; j < pq; j++) A[i][j] += z[i] * z[j]; bb[i] += z[i] * y[t]; } }
    LD tr = 0; for (int i = 0; i < pq; i++) tr += A[i][i]; if (!ora::solve(A, bb, s)) return; LD det = 1; { auto C = A; for (int k = 0; k < pq; k++) { det *= C[k][k] / (tr / pq); for (int i = k + 1; i < pq; i++) { LD f = C[i][k] / C[k][k]; for (int j = k; j < pq; j++) C[i][j] -= f * C[k][j]; } } }
    if (!(det > 1e-5L)) { c.hit("skip:hr-singular"); return; } c.hit("hr");
    LD ss = 0; for (int t = m + hq; t < N; t++) { LD u = y[t]; for (int j = 0; j < hp; j++) u -= s[j] * y[t - 1 - j]; for (int j = 0; j < hq; j++) u += s[hp + j] * e[t - 1 - j]; ss += u * u; } ss /= (N - m - hq);
    for (int j = 0; j < pq; j++) { double got = j < hp ? ph[j] : th[j - hp]; if (!c.ok(std::fabs(got - (double)s[j]) <= 1e-6 * (1 + fabs((double)s[j])), "hannan-rissanen:coefficients", "%s (%d,%d) coefficient %d %.12g want %.12Lg", d, hp, hq, j, got, s[j])) return; }
    c.ok(std::fabs(v[0] - (double)ss) <= 1e-6 * (double)ss, "hannan-rissanen:variance", "%s variance %.12g want %.12Lg", d, v[0], ss); }
}
static LD mlobj(const LVec &phi, LD mu, const LVec &x) { LVec w = x; for (LD &v : w) v -= mu; ora::Filt f = ora::filter(phi, LVec(), w); return f.ok ? f.obj : 1e30L; }
static void object(vf::Ctx &c) {
  vf::Rng &r = c.rng; int method = r.chance(0.07) ? 2 : r.irange(0, 1), N = method == 2 ? r.irange(40, 120) : r.irange(30, 250); std::string nm; Vec x = gen::series(r, N, 0, &nm); if (r.chance(0.4)) x = gen::arma(r, gen::statcoef(r, r.irange(2, 5), 0.7), {}, N);
  double b = r.chance(0.3) ? 1 : std::pow(10.0, r.range(-2, 2)), a0 = r.chance(0.4) ? 0 : b * r.range(-30, 30); gen::affine(x, a0, b);
  if (method == 2) { Vec y = x; LVec l = ora::L(x); AR y1 = yw_all(l, 1)[0]; if (y1.phi[0] > 0.9L) x = gen::arma(r, gen::statcoef(r, 2, 0.7), {}, N); }
  char d[120]; snprintf(d, sizeof d, "AR object method %d %s N=%d", method, nm.c_str(), N); LVec xl = ora::L(x); LD mu = 0; for (LD v : xl) mu += v; mu /= N; LVec dm = xl; for (LD &v : dm) v -= mu;
  int lim = std::min(N - 1, (int)(10.0 * std::log((double)N))); if (method == 2) lim = std::min(lim, 12);
  In xi(x, "series"); ar_object o = ar_init(method, N); ar_exec(o, xi); int p = o->p; c.outi(p); c.outi(o->retval); Vec phi(o->phi, o->phi + p); c.outv(phi.data(), p); c.out(o->mean); c.out(o->var);
  c.outi(ar_estimate(xi, N, method)); c.mixv(x); c.mix(method); ar_summary(o);
  int L = r.irange(1, 15); Out xp(L, "xpred"), am(L, "amse"); ar_predict(o, xi, L, xp, am); c.outv(xp, L); c.outv(am, L); Vec res; if (method == 2) { res.assign(o->res, o->res + N); c.outv(res.data(), N); c.out(o->aic); }
  double om = o->mean, ov = o->var, oaic = method == 2 ? o->aic : 0; int rv = o->retval, oo = o->order; ar_free(o);
  char t[40]; snprintf(t, sizeof t, "m%d:p%d", method, std::min(p, 9)); c.hit(t);
  c.ok(p >= 1 && p <= lim, "object:order-limit", "%s order %d limit %d", d, p, lim); c.ok(oo == p, "object:order-field", "%s order %d p %d", d, oo, p); c.nontrivial();
  if (VF_NO_ORACLE) return;
  if (method < 2) {
    c.ok(rv == 1, "object:return-code", "%s retval %d", d, rv); c.ok(std::fabs(om - (double)mu) <= 1e-10 * (std::fabs((double)mu) + b), "object:mean", "%s mean %.12g want %.12Lg", d, om, mu);
    auto A = method == 0 ? yw_all(dm, lim) : burg_all(dm, lim); cmpar(c, method ? "object:burg" : "object:yule-walker", phi.data(), ov, A[p - 1], d);
    LD best = INFINITY, mine = logl(A[p - 1].var) + 2.0L * p / N; int kb = 0; for (int k = 1; k <= lim; k++) { LD q = logl(A[k - 1].var) + 2.0L * k / N; if (q < best) { best = q; kb = k; } }
    if (A[lim - 1].cond < 1e6L) c.ok(mine <= best + 1e-6L, "object:order-selection", "%s chose order %d with AIC %.9Lg, order %d has %.9Lg", d, p, mine, kb, best); else c.hit("skip:ill-conditioned-order");
    LD mg; if (A[p - 1].cond < 1e6L) { bool st = ora::stationary(ora::L(phi), &mg); c.ok(st, "object:stationary", "%s order %d is not stationary", d, p); if (!st) return; }
  } else {
    if (rv != 1) { c.hit("mle:not-successful"); return; }
    LVec ph = ora::L(phi); LD mg; if (!ora::stationary(ph, &mg) || mg < 0.02L) { c.hit("skip:boundary"); return; }
    LVec w = xl; for (LD &v : w) v -= om; ora::Filt f = ora::filter(ph, LVec(), w); if (!f.ok) { c.inconclusive("filter"); return; }
    c.ok(std::fabs(ov - (double)(f.ssq / N)) <= 3e-3 * ov, "object:mle:variance", "%s variance %.10g want %.10Lg", d, ov, f.ssq / N);
    LD ll = -0.5L * N * (2 * f.obj + 1 + logl(2 * 3.14159265358979323846L)); c.ok(std::fabs(oaic - (double)(-2 * ll + 2 * (p + 2))) <= 0.05, "object:mle:aic", "%s aic %.10g want %.10Lg", d, oaic, -2 * ll + 2 * (p + 2));
    for (int t2 = 0; t2 < N; t2++) if (!c.ok(std::fabs(res[t2] - (double)(f.u[t2] / sqrtl(f.v[t2]))) <= 5e-3 * std::sqrt(ov), "object:mle:residuals", "%s res[%d]=%.10g want %.10Lg", d, t2, res[t2], f.u[t2] / sqrtl(f.v[t2]))) break;
    for (int i = 0; i <= p; i++) for (int sg = -1; sg <= 1; sg += 2) { LVec q = ph; LD m2 = om; if (i < p) q[i] += sg * 0.05L; else m2 += sg * 0.3L * sqrtl(f.ssq / N) / sqrtl((LD)N) * 3; if (!ora::stationary(q)) continue; LD v = mlobj(q, m2, xl); if (!c.ok(N * (f.obj - v) <= 0.15L, "object:mle:optimum", "%s moving parameter %d by %+d steps raises the log-likelihood by %.4Lg", d, i, sg, N * (f.obj - v))) break; }
    Vec dmv(dm.begin(), dm.end()); In di(dmv, "series"); double best = INFINITY, mine = 0; int kb = 0; bool allok = true; for (int k = 1; k <= lim; k++) { Out pk(k, "phi"), vk(1, "var"); ar(di, N, k, 2, pk, vk); LD m3; allok &= ora::stationary(ora::L(pk, k), &m3) && m3 > 0.005L; double q = std::log(vk[0]) + 2.0 * k / N; if (getenv("VF_DBG")) fprintf(stderr, "k %d var %g aic %g allok %d\n", k, vk[0], q, allok); if (k == p) mine = q; if (q < best) { best = q; kb = k; } }
    if (allok && !(mine <= best + 1e-3)) for (int sg = 1; sg <= 2 && allok; sg++) {  // not decided when the optimiser is sensitive to rounding
      Vec pt = dmv; for (auto &v : pt) v *= 1 + sg * 1e-13; In pi(pt, "series"); for (int k : {p, kb}) { Out pk(k, "phi"), vk(1, "var"); ar(pi, N, k, 2, pk, vk); double q = std::log(vk[0]) + 2.0 * k / N; if (std::fabs(q - (k == p ? mine : best)) > 3e-4) allok = false; } if (!allok) c.hit("skip:order-selection-sensitive"); }
    if (allok) c.ok(mine <= best + 1e-3, "object:mle:order-selection", "%s chose order %d with AIC %.9g, order %d has %.9g", d, p, mine, kb, best);
  }
  // forecasts
  LVec ph = ora::L(phi), h = xl; LD mg; if (!ora::stationary(ph, &mg) || mg < 1e-3L) { c.hit("skip:forecast-boundary"); return; } for (LD &v : h) v -= om; LVec w = h; ora::Filt f = ora::filter(ph, LVec(), w); if (!f.ok) return; LVec ps = ora::psi(ph, LVec(), L); LD cum = 0, s2 = f.ssq / N; double mx = 0; for (double v : x) mx = std::max(mx, std::fabs(v));
  for (int k = 0; k < L; k++) { LD v = 0; for (int i = 0; i < p; i++) v += ph[i] * h[N + k - 1 - i]; h.push_back(v); cum += ps[k] * ps[k]; double se = std::sqrt((double)(s2 * cum));
    if (!c.ok(std::fabs(xp[k] - (double)(v + om)) <= 1e-5 * se + 1e-9 * mx, "object:forecast", "%s order %d step %d %.12g want %.12Lg", d, p, k, xp[k], v + om)) break;
    if (!c.ok(std::fabs(am[k] - (double)(s2 * cum)) <= 1e-3 * (double)(s2 * cum), "object:forecast-mse", "%s order %d step %d %.12g want %.12Lg", d, p, k, am[k], s2 * cum)) break; }
  if (c.idx % 97 == 3) c.sample("%s chose order %d, first forecast %.6g, mse %.6g (filter variance %.6Lg)", d, p, xp[0], am[0], s2);
}
// Initial Box-Jenkins estimates: modified Yule-Walker equations for the autoregression, Newton-Raphson on the moment equations of the moving average.
static void moments(vf::Ctx &c) {
  vf::Rng &r = c.rng; bool sea = r.chance(0.4); int s = sea ? r.irange(2, 8) : 1, p = r.irange(0, sea ? 2 : 4), q = r.irange(0, sea ? 2 : 3), K = (p + q + 1) * s, N = K + r.irange(10, 150); Vec x = gen::series(r, N, sea ? s : 0); if (r.chance(0.5)) gen::affine(x, r.range(-50, 50), std::pow(10.0, r.range(-0.5, 1.5)));
  c.mixv(x); c.mix(p * 100 + q * 10 + s); c.nontrivial(); char d[80]; snprintf(d, sizeof d, "%s N=%d p=%d q=%d s=%d", sea ? "USPE_seasonal" : "USPE", N, p, q, s);
  In xi(x, "series"); Out ph(p, "phi"), th(q, "theta"), tc(1, "constant"), vr(1, "variance"); if (sea) USPE_seasonal(xi, N, s, p, q, ph, th); else USPE(xi, N, p, q, ph, th, tc, vr); c.outv(ph, p); c.outv(th, q); if (!sea) { c.out(tc[0]); c.out(vr[0]); }
  if (VF_NO_ORACLE) return;
  LD mu = 0; for (double v : x) mu += v; mu /= N; LVec g(p + q + 1); for (int k = 0; k <= p + q; k++) { LD a = 0; for (int i = 0; i + k * s < N; i++) a += (x[i] - mu) * (x[i + k * s] - mu); g[k] = a / N; }
  for (int i = 0; i < p; i++) if (!std::isfinite(ph[i])) { c.hit("moments:singular"); return; }
  LD sp = 0; for (int i = 0; i < p; i++) { LD a = -g[q + i + 1], m = fabsl(a); for (int j = 0; j < p; j++) { LD t = g[std::abs(q + i - j)] * ph[j]; a += t; m += fabsl(t); } sp += ph[i]; c.ok(fabsl(a) <= 1e-9L * m + 1e-11L * g[0] * (1 + fabsl(ph[i])), "moments:yule-walker", "%s equation %d residual %.3Lg of %.3Lg", d, i, a, m); }
  if (!sea) c.ok(std::fabs(tc[0] - (double)(mu * (1 - sp))) <= 1e-9 * (double)(fabsl(mu) * (1 + fabsl(sp)) + sqrtl(g[0])), "moments:constant", "%s constant %.12g want %.12Lg", d, tc[0], mu * (1 - sp));
  if (q == 0) { if (!sea) { LD v = g[0], m = g[0]; for (int i = 0; i < p; i++) v -= g[i + 1] * ph[i], m += fabsl(g[i + 1] * ph[i]); c.ok(fabsl(vr[0] - v) <= 1e-9L * m, "moments:variance", "%s variance %.12g want %.12Lg", d, vr[0], v); } c.hit("moments:ar"); return; }
  LVec a(p + 1), m2(q + 1, 0); a[0] = -1; for (int i = 0; i < p; i++) a[i + 1] = ph[i]; LD big = 0; for (int j = 0; j <= q; j++) { for (int i = 0; i <= p; i++) for (int l = 0; l <= p; l++) m2[j] += a[i] * a[l] * g[std::abs(j + i - l)]; big = std::max(big, fabsl(m2[j])); }
  // the same iteration in long double: only cases it settles quickly are judged
  LVec t(q + 1, 0); t[0] = sqrtl(m2[0]); bool ok = false; LVec f(q + 1);
  for (int it = 0; it < 15; it++) { LD w = 0; for (int j = 0; j <= q; j++) { f[j] = -m2[j]; for (int i = 0; i + j <= q; i++) f[j] += t[i] * t[i + j]; w = std::max(w, fabsl(f[j])); } if (w <= 1e-4L) { ok = w < 0.9e-4L; break; }
    std::vector<LVec> T(q + 1, LVec(q + 2, 0)); for (int i = 0; i <= q; i++) { for (int j = 0; j <= q; j++) T[i][j] = (i + j <= q ? t[i + j] : 0) + (j >= i ? t[j - i] : 0); T[i][q + 1] = f[i]; }
    bool sing = false; for (int k = 0; k <= q; k++) { int b = k; for (int i = k; i <= q; i++) if (fabsl(T[i][k]) > fabsl(T[b][k])) b = i; std::swap(T[k], T[b]); if (fabsl(T[k][k]) < 1e-6L * sqrtl(big)) { sing = true; break; } for (int i = 0; i <= q; i++) if (i != k) { LD h = T[i][k] / T[k][k]; for (int j = k; j <= q + 1; j++) T[i][j] -= h * T[k][j]; } }
    if (sing) break; for (int i = 0; i <= q; i++) t[i] -= T[i][q + 1] / T[i][i]; }
  if (!ok || fabsl(t[0]) < 1e-3L * sqrtl(big)) { c.hit("moments:unsettled"); return; }
  c.hit(sea ? "moments:seasonal" : "moments:ma"); LD v = sea ? t[0] * t[0] : vr[0];
  for (int j = 0; j <= q; j++) { LD e = -m2[j]; for (int i = 0; i + j <= q; i++) e += v * (i ? -th[i - 1] : 1) * (i + j ? -th[i + j - 1] : 1); c.ok(fabsl(e) <= 1.5e-4L + 1e-7L * big, "moments:moving-average", "%s moment equation %d is off by %.3Lg of %.3Lg", d, j, e, big); }
}
void run_case(vf::Ctx &c) { if (c.rng.chance(0.12)) moments(c); else if (c.rng.chance(0.5)) lowlevel(c); else object(c); }
