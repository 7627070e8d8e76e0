// C27: optimisers. Every objective is traced through its callback.
#include "vf.h"
#include "gen.h"
#include "ols.h"
extern "C" {
#include "ctsa.h"
#include "optimc.h"
#include "brent.h"
}
const char *vf_driver_name = "c27_optim";
enum { QUAD, LOGCOSH, LOGISTIC, EXPSUM, NCONVEX, ROSEN = NCONVEX, POWELL, BEALE, WOOD, BARRIER, NKIND };
static const char *const kname[] = {"quadratic", "logcosh", "logistic", "expsum", "rosenbrock", "powell", "beale", "wood", "barrier"};
struct Prob {
  int kind, n, m; Vec A, b; double f0, mu;   // mu: strong convexity constant (ridge)
  long calls = 0, gcalls = 0; bool badarg = false, blew = false; double fmin_seen = INFINITY; const double *xi = nullptr; Vec xi0; long limit = 4000000;
  double eval(const double *x) const;
  void grad(const double *x, double *g) const;
};
static LD sq(LD v) { return v * v; }
double Prob::eval(const double *x) const {
  LD f = f0;
  switch (kind) {
    case QUAD: for (int i = 0; i < m; i++) { LD s = -b[i]; for (int j = 0; j < n; j++) s += (LD)A[i * n + j] * x[j]; f += 0.5L * s * s; } for (int j = 0; j < n; j++) f += 0.5L * mu * x[j] * x[j]; break;
    case LOGCOSH: for (int i = 0; i < m; i++) { LD s = -b[i]; for (int j = 0; j < n; j++) s += (LD)A[i * n + j] * x[j]; s = fabsl(s); f += s + log1pl(expl(-2 * s)); } for (int j = 0; j < n; j++) f += 0.5L * mu * x[j] * x[j]; break;
    case LOGISTIC: for (int i = 0; i < m; i++) { LD s = 0; for (int j = 0; j < n; j++) s += (LD)A[i * n + j] * x[j]; s *= b[i] > 0 ? 1 : -1; f += s > 0 ? log1pl(expl(-s)) : -s + log1pl(expl(s)); } for (int j = 0; j < n; j++) f += 0.5L * mu * x[j] * x[j]; break;
    case EXPSUM: for (int i = 0; i < m; i++) { LD s = 0; for (int j = 0; j < n; j++) s += (LD)A[i * n + j] * x[j]; f += expl(0.3L * s) + 0.3L * b[i] * s; } for (int j = 0; j < n; j++) f += 0.5L * mu * x[j] * x[j]; break;
    case ROSEN: for (int i = 0; i + 1 < n; i += 2) f += (LD)m * sq(x[i + 1] - (LD)x[i] * x[i]) + sq(1 - (LD)x[i]); if (n % 2) f += sq(x[n - 1] - 1.0L); break;
    case POWELL: f += sq(x[0] + 10.0L * x[1]) + 5 * sq((LD)x[2] - x[3]) + sq(sq(x[1] - 2.0L * x[2])) + 10 * sq(sq((LD)x[0] - x[3])); break;
    case BEALE: f += sq(1.5L - x[0] * (1 - (LD)x[1])) + sq(2.25L - x[0] * (1 - sq(x[1]))) + sq(2.625L - x[0] * (1 - sq(x[1]) * x[1])); break;
    case WOOD: f += 100 * sq(sq(x[0]) - x[1]) + sq(x[0] - 1.0L) + sq(x[2] - 1.0L) + 90 * sq(sq(x[2]) - x[3]) + 10.1L * (sq(x[1] - 1.0L) + sq(x[3] - 1.0L)) + 19.8L * (x[1] - 1.0L) * (x[3] - 1.0L); break;
    case BARRIER: { LD s = 0; for (int j = 0; j < n; j++) { if (!(x[j] > 0)) return m ? NAN : INFINITY; s += x[j] - b[j] * logl((LD)x[j]); } f += s; break; }
  }
  return (double)f;
}
void Prob::grad(const double *x, double *g) const {
  LVec q(n, 0);
  switch (kind) {
    case QUAD: case LOGCOSH: case LOGISTIC: case EXPSUM:
      for (int i = 0; i < m; i++) { LD s = 0; for (int j = 0; j < n; j++) s += (LD)A[i * n + j] * x[j]; LD w = kind == QUAD ? s - b[i] : kind == LOGCOSH ? tanhl(s - b[i]) : kind == LOGISTIC ? (b[i] > 0 ? -1 / (1 + expl(s)) : 1 / (1 + expl(-s))) : 0.3L * (expl(0.3L * s) + b[i]); for (int j = 0; j < n; j++) q[j] += w * A[i * n + j]; }
      for (int j = 0; j < n; j++) q[j] += (LD)mu * x[j]; break;
    case ROSEN: for (int i = 0; i + 1 < n; i += 2) { LD t = x[i + 1] - (LD)x[i] * x[i]; q[i + 1] += 2 * m * t; q[i] += -4 * m * t * x[i] - 2 * (1 - (LD)x[i]); } if (n % 2) q[n - 1] += 2 * (x[n - 1] - 1.0L); break;
    case POWELL: { LD a = x[0] + 10.0L * x[1], e = (LD)x[2] - x[3], u = x[1] - 2.0L * x[2], v = (LD)x[0] - x[3]; q[0] = 2 * a + 40 * v * v * v; q[1] = 20 * a + 4 * u * u * u; q[2] = 10 * e - 8 * u * u * u; q[3] = -10 * e - 40 * v * v * v; break; }
    case BEALE: { LD y = x[1], a = 1.5L - x[0] * (1 - y), e = 2.25L - x[0] * (1 - y * y), h = 2.625L - x[0] * (1 - y * y * y); q[0] = -2 * (a * (1 - y) + e * (1 - y * y) + h * (1 - y * y * y)); q[1] = 2 * x[0] * (a + 2 * y * e + 3 * y * y * h); break; }
    case WOOD: { LD a = sq(x[0]) - x[1], e = sq(x[2]) - x[3]; q[0] = 400 * a * x[0] + 2 * (x[0] - 1.0L); q[1] = -200 * a + 20.2L * (x[1] - 1.0L) + 19.8L * (x[3] - 1.0L); q[2] = 360 * e * x[2] + 2 * (x[2] - 1.0L); q[3] = -180 * e + 20.2L * (x[3] - 1.0L) + 19.8L * (x[1] - 1.0L); break; }
    case BARRIER: for (int j = 0; j < n; j++) q[j] = 1 - b[j] / (LD)x[j]; break;
  }
  for (int j = 0; j < n; j++) g[j] = (double)q[j];
}
static double cb(double *x, int N, void *params) { Prob *p = (Prob *)params; p->calls++; if (N != p->n) { p->badarg = true; return 0; } double f = p->eval(x); if (!(std::fabs(f) < DBL_MAX)) p->blew = true; if (f < p->fmin_seen) p->fmin_seen = f; return f; }
static void cbg(double *x, int N, double *g, void *params) { Prob *p = (Prob *)params; p->gcalls++; if (N != p->n) { p->badarg = true; return; } p->grad(x, g); }
static Prob problem(vf::Rng &r, bool convex) {
  Prob p; p.kind = convex ? r.irange(0, NCONVEX - 1) : r.irange(NCONVEX, NKIND - 1); p.n = r.chance(0.2) ? 1 : r.chance(0.25) ? r.irange(9, 30) : r.irange(2, 8); p.f0 = r.chance(0.5) ? 0 : r.norm() * std::pow(10.0, r.irange(-1, 2)); p.mu = 0; p.m = 0;
  if (p.kind < NCONVEX) { int n = p.n; p.m = n + r.irange(0, 2 * n + 3); p.A.resize(p.m * n); p.b.resize(p.m); Vec sc(n); for (auto &v : sc) v = std::pow(10.0, r.range(-0.7, 0.7)); for (int i = 0; i < p.m; i++) { for (int j = 0; j < n; j++) p.A[i * n + j] = r.norm() * sc[j]; p.b[i] = p.kind == LOGISTIC ? (r.chance(0.5) ? 1 : -1) : p.kind == EXPSUM ? r.range(0.2, 2) : r.norm() * 2; } p.mu = p.kind == QUAD && r.chance(0.5) ? r.range(0.01, 0.1) : r.range(0.05, 1); }
  else if (p.kind == ROSEN) { p.n = r.irange(2, 10); p.m = r.irange(1, 100); }
  else if (p.kind == POWELL || p.kind == WOOD) p.n = 4;
  else if (p.kind == BEALE) p.n = 2;
  else { p.n = r.irange(1, 5); p.b.resize(p.n); for (auto &v : p.b) v = r.range(0.2, 5); p.m = r.irange(0, 1); }
  return p;
}
static Vec start(vf::Rng &r, const Prob &p) { Vec x(p.n); for (auto &v : x) { v = r.norm() * (r.chance(0.2) ? 5 : 1); if (p.kind == BARRIER) v = std::fabs(v) + 0.05; if (r.chance(0.05)) v = 0; } if (p.kind == BARRIER) for (auto &v : x) if (v == 0) v = 1; if (p.kind == EXPSUM) while (!(p.eval(x.data()) < 1e5)) for (auto &v : x) v /= 2; return x; }
// largest component of the relative gradient used by the library's stopping rule
static double relgrad(const Prob &p, const double *x, double f) { Vec g(p.n); p.grad(x, g.data()); double w = 0; for (int i = 0; i < p.n; i++) w = std::max(w, std::fabs(g[i]) * std::max(1.0, std::fabs(x[i])) / std::max(1.0, std::fabs(f))); return w; }
// minimum of a strictly convex problem by damped Newton in the driver: the gap certificate f - |g|^2/(2 mu) <= f* needs no solver
static double lower(const Prob &p, const double *x, double f) { Vec g(p.n); p.grad(x, g.data()); LD s = 0; for (double v : g) s += (LD)v * v; return f - (double)(s / (2 * p.mu)); }

static void minimise(vf::Ctx &c, vf::Rng &r) {
  bool convex = r.chance(0.6); Prob p = problem(r, convex); Vec x0 = start(r, p); if (p.kind == BARRIER && r.chance(0.2)) x0[r.irange(0, p.n - 1)] = r.chance(0.3) ? 0 : -r.range(0.01, 3); int n = p.n, method = r.irange(0, 7), api = r.irange(0, 2); if (method == 0 && n > 6) method = r.irange(1, 7);
  bool g = method > 0 && r.chance(0.5); custom_function cf{cb, &p}; custom_gradient cg{cbg, &p}; double maxstep = r.chance(0.7) ? -1 : r.range(0.5, 200); bool limited = api == 0 && r.chance(0.25);
  char d[160]; snprintf(d, sizeof d, "%s n=%d method %d %s api %d maxstep %g", kname[p.kind], n, method, g ? "analytic" : "numeric", api, maxstep);
  c.mixv(x0); c.mixd(method); c.mixd(p.kind); c.mixv(p.A); c.mixv(p.b); c.mixd(p.m); c.nontrivial();
  In xi(x0, "start"); double f0 = p.eval(x0.data()), f = NAN; Vec xf; int rc, iter = -1, maxit = 0; Vec typ(n, 1.0); double gtol = std::pow(DBL_EPSILON, 1.0 / 3);
  if (api == 0) { opt_object o = opt_init(n); if (limited) { maxit = r.irange(1, 30); setMaxIter(o, maxit); } else maxit = o->MaxIter; if (maxstep > 0) setMaxStep(o, maxstep); if (!limited && r.chance(0.2)) { gtol = std::pow(10.0, r.range(-7, -3)); setTOL(o, gtol, gtol * gtol, gtol * gtol, DBL_EPSILON); }
    optimize(o, &cf, g ? &cg : NULL, n, xi, method); rc = o->retval; iter = o->Iter; f = o->objfunc; xf.assign(o->xopt, o->xopt + n); c.out(f); c.outi(iter); c.ok(o->Method == method && o->N == n, "record", "%s object says method %d", d, o->Method); free_opt(o); }
  else if (api == 1) { Out o(n, "minimiser"); if (method == 0 && r.chance(0.5)) rc = fminsearch(&cf, n, xi, o); else rc = fminunc(&cf, g ? &cg : NULL, n, xi, maxstep, method, o); xf = o.vec(); }
  else { Out o(n, "minimiser"); Vec one(n, 1.0); if (r.chance(0.5)) { for (auto &v : one) v = std::pow(10.0, r.range(-1, 1)); typ = one; } In dx(one, "scale"); method = 1 + method % 3; snprintf(d, sizeof d, "%s n=%d fminnewt method %d %s maxstep %g", kname[p.kind], n, method, g ? "analytic" : "numeric", maxstep); rc = fminnewt(&cf, g ? &cg : NULL, n, xi, -1.0, dx, 1.0, maxstep, method, o); xf = o.vec(); }
  c.outi(rc); c.outv(xf.data(), n); c.hit(kname[p.kind]); { char t[32]; snprintf(t, sizeof t, "method%d:code%d", method, rc); c.hit(t); }
  c.ok(!p.badarg, "callback", "%s objective called with a wrong dimension", d);
  c.ok(rc == 1 || rc == 2 || rc == 3 || rc == 4 || rc == 5 || rc == 6 || rc == 15 || (rc == 0), "code", "%s code %d", d, rc);
  if (!std::isfinite(f0) && method != 0) { c.hit("start-outside"); bool same = true; for (int i = 0; i < n; i++) same = same && xf[i] == x0[i]; c.ok(rc == 15 && same, "start-outside", "%s started where the objective is %g: code %d, %s", d, f0, rc, same ? "starting point returned" : "another point returned"); return; }
  if (rc == 15) { c.hit("overflow"); c.ok(p.blew, "overflow", "%s reports an overflow although the objective was finite everywhere it was evaluated", d); return; }
  bool fin = true; for (double v : xf) fin = fin && std::isfinite(v); double fx = fin ? p.eval(xf.data()) : NAN;
  if (!c.ok(fin, "finite", "%s code %d returned a non-finite point", d, rc)) return;
  if (api == 0) c.ok(f == fx || (std::isnan(f) && std::isnan(fx)) || std::fabs(f - fx) <= 1e-14 * std::fabs(fx), "value", "%s reports %.17g, the objective there is %.17g", d, f, fx);
  c.ok(!std::isfinite(f0) || fx <= f0 + 1e-14 * std::fabs(f0), "descent", "%s code %d start %.17g end %.17g", d, rc, f0, fx);
  if (api == 0) { c.ok(iter >= 0 && iter <= maxit, "iterations", "%s %d iterations, limit %d", d, iter, maxit); if (iter >= maxit) { c.hit("limit-reached"); c.ok(rc != 0 && rc != 5, "limit-code", "%s %d iterations, the limit, but code %d", d, iter, rc); } if (rc == 0) c.hit("code0"); }
  if (rc == 1 && method != 0) { Vec q(n), q2(n); p.grad(xf.data(), q.data()); double l2 = 0; bool small = true, mt = method == 4 || method == 6 || method == 7; double worst = 0, wtol = 0;
    for (int i = 0; i < n; i++) { l2 += q[i] * q[i]; double h = 1.5e-8 * std::max(typ[i], std::fabs(xf[i])), e = 0; if (!g) { Vec y = xf; y[i] += h; p.grad(y.data(), q2.data()); e = std::fabs(q2[i] - q[i]) + 4 * DBL_EPSILON * (std::fabs(fx) + std::fabs(p.f0) + 1) / h; } double k = mt ? 1 : std::max(typ[i], std::fabs(xf[i])) / std::max(1.0, std::fabs(fx)), t = e * k + (mt ? 0 : gtol * 1.01); if (!mt && std::fabs(q[i]) * k > t) small = false, worst = std::fabs(q[i]) * k, wtol = t; if (mt) wtol += e; }
    if (mt) { worst = std::sqrt(l2) / n; wtol = wtol / n + gtol * 1.01; small = worst <= wtol; } c.hit("stationary"); c.ok(small, "stationary", "%s reports a vanishing gradient but its size by its own measure is %.3g (allowed %.3g)", d, worst, wtol); }
  if (p.mu > 0 && p.kind != EXPSUM && n <= 6 && method != 0 && maxstep < 0 && !limited) c.ok(rc == 1 || rc == 2 || rc == 3 || rc == 6, "convex:success", "%s gives up with code %d", d, rc);
  if (p.mu > 0 && (rc == 1 || rc == 2 || rc == 3 || rc == 6)) { double lo = lower(p, xf.data(), fx), scale = std::max(1.0, std::fabs(fx)); double gap = (fx - lo) / scale; static const char *const K[] = {"", "convex:1", "convex:2", "convex:3", "", "", "convex:6"}; if (rc == 1 && gtol > 1e-5) return; c.ok(gap <= (method == 0 ? 1e-3 : rc == 1 ? 1e-3 : 1e-2), method == 0 ? "convex:simplex" : K[rc], "%s code %d: objective at most %.3g above the minimum, relative gradient %.3g", d, rc, gap, relgrad(p, xf.data(), fx)); c.hit("convex"); }
  if (c.idx % 211 == 3) c.sample("%s code %d iterations %d: %.6g -> %.6g (%ld evaluations)", d, rc, iter, f0, fx, p.calls);
}

// ---- one dimension
struct Uni { int kind; double a, b, s; long calls = 0; double lo = INFINITY, hi = -INFINITY; };
static double uval(const Uni &u, double x) { double t = (x - u.a) * u.s; switch (u.kind) { case 0: return t * t + u.b; case 1: return std::fabs(t) + u.b; case 2: return std::cosh(t) + u.b; case 3: return t * t * t * t + u.b; case 4: return x * u.s; case 5: return -x * u.s; case 6: return -std::exp(-t * t) + u.b; default: return t < 0 ? -t : 3 * t * t + t; } }
static double ucb(double x, void *q) { Uni *u = (Uni *)q; u->calls++; u->lo = std::min(u->lo, x); u->hi = std::max(u->hi, x); return uval(*u, x); }
static double zval(const Uni &u, double x) { double t = (x - u.a) * u.s; switch (u.kind) { case 0: return t; case 1: return t * t * t; case 2: return std::tanh(t) ; case 3: return std::expm1(t); case 4: return t + 0.3 * std::sin(t); default: return std::atan(t) + 0.1 * t; } }
static double zcb(double x, void *q) { Uni *u = (Uni *)q; u->calls++; u->lo = std::min(u->lo, x); u->hi = std::max(u->hi, x); return zval(*u, x); }
static void onedim(vf::Ctx &c, vf::Rng &r) {
  Uni u; u.kind = r.irange(0, 7); u.a = r.norm() * std::pow(10.0, r.irange(-2, 2)); u.b = r.norm(); u.s = r.range(0.2, 3); double L = u.a - r.range(-0.5, 3), R = std::max(L, u.a) + r.range(0.01, 3); custom_funcuni cf{ucb, &u};
  c.mixd(u.a); c.mixd(L); c.mixd(R); c.mixd(u.kind); c.nontrivial(); char d[120]; snprintf(d, sizeof d, "unimodal %d minimum near %.6g on [%.6g, %.6g]", u.kind, u.a, L, R);
  if (r.chance(0.3)) { u.kind = r.irange(0, 5); L = u.a - r.range(0.01, 4); R = u.a + r.range(0.01, 4); if (r.chance(0.05)) L = u.a; cf.funcuni = zcb; double tol = r.chance(0.5) ? 1e-12 : 1e-8, z = brent_zero(&cf, L, R, tol, DBL_EPSILON); c.out(z); c.hit("zero"); double w = u.kind == 1 ? 1e-4 : 0; (void)w;
    c.ok(z >= L && z <= R, "zero:interval", "%s returned %.17g", d, z); c.ok(u.lo >= L && u.hi <= R, "zero:evaluates", "%s evaluated at [%.17g, %.17g]", d, u.lo, u.hi); c.ok(u.calls <= 3000, "zero:calls", "%s %ld evaluations", d, u.calls);
    double h = 2 * tol + 1e-15 * std::fabs(u.a) * 4; c.ok(std::fabs(z - u.a) <= h + (u.kind == 1 ? 0 : 0) || zval(u, z) == 0, "zero:root", "root %.17g, found %.17g", u.a, z); return; }
  double t = 1e-12, fx, x; if (r.chance(0.5)) { x = fminbnd(&cf, L, R); fx = uval(u, x); } else { fx = brent_local_min(&cf, L, R, t, DBL_EPSILON, &x); c.ok(fx == uval(u, x), "bounded:value", "%s returned value %.17g, objective %.17g", d, fx, uval(u, x)); }
  c.out(x); c.out(fx); c.hit("bounded"); c.ok(x >= L && x <= R, "bounded:interval", "%s returned %.17g", d, x); c.ok(u.lo >= L && u.hi <= R, "bounded:evaluates", "%s evaluated at [%.17g, %.17g]", d, u.lo, u.hi); c.ok(u.calls <= 500, "bounded:calls", "%s %ld evaluations", d, u.calls);
  double want = u.kind == 4 ? L : u.kind == 5 ? R : std::max(L, std::min(R, u.a)); double bestv = uval(u, want), sc = std::max(1.0, std::fabs(bestv));
  c.ok(fx <= bestv + 1e-9 * sc * (R - L + 1), "bounded:minimum", "%s found %.12g at %.12g but %.12g at %.12g", d, fx, x, bestv, want);
}

// ---- least squares
struct Fit { int kind, m, n; Vec t, y, A; long calls = 0, jcalls = 0; bool bad = false; };
static void resid(const Fit &f, const double *x, double *r) { for (int i = 0; i < f.m; i++) { LD v; double t = f.t[i]; switch (f.kind) { case 0: v = 0; for (int j = 0; j < f.n; j++) v += (LD)f.A[i * f.n + j] * x[j]; break; case 1: v = x[0] * expl(-(LD)x[1] * t) + x[2]; break; case 2: v = x[0] / (1 + expl(-(LD)x[1] * (t - x[2]))); break; default: v = x[0] * (LD)t / (x[1] + (LD)t); } r[i] = (double)(v - f.y[i]); } }
static void jaco(const Fit &f, const double *x, double *J) { for (int i = 0; i < f.m; i++) { double t = f.t[i], *q = J + i * f.n; switch (f.kind) { case 0: for (int j = 0; j < f.n; j++) q[j] = f.A[i * f.n + j]; break; case 1: { LD e = expl(-(LD)x[1] * t); q[0] = (double)e; q[1] = (double)(-x[0] * e * t); q[2] = 1; break; } case 2: { LD e = expl(-(LD)x[1] * (t - x[2])), s = 1 / (1 + e); q[0] = (double)s; q[1] = (double)(x[0] * s * s * e * (t - x[2])); q[2] = (double)(-x[0] * s * s * e * x[1]); break; } default: { LD w = x[1] + (LD)t; q[0] = (double)(t / w); q[1] = (double)(-x[0] * t / (w * w)); } } } }
static void rcb(double *x, int M, int N, double *r, void *q) { Fit *f = (Fit *)q; f->calls++; if (M != f->m || N != f->n) { f->bad = true; return; } resid(*f, x, r); }
static void jcb(double *x, int M, int N, double *J, void *q) { Fit *f = (Fit *)q; f->jcalls++; if (M != f->m || N != f->n) { f->bad = true; return; } jaco(*f, x, J); }
static LD ss(const Fit &f, const double *x) { Vec r(f.m); resid(f, x, r.data()); LD s = 0; for (double v : r) s += (LD)v * v; return s; }
static void lsq(vf::Ctx &c, vf::Rng &r) {
  Fit f; f.kind = r.irange(0, 3); f.n = f.kind == 0 ? r.irange(1, 8) : f.kind == 3 ? 2 : 3; f.m = f.n + r.irange(f.kind ? 4 : 0, 40); bool exact = r.chance(0.2); f.t.resize(f.m); f.y.resize(f.m); double noise = exact ? 0 : r.range(0.01, 0.2);
  for (auto &v : f.t) v = r.range(0.05, 5); Vec xs(f.n), x0(f.n); if (f.kind == 0) { f.A.resize(f.m * f.n); for (auto &v : f.A) v = r.norm(); if (r.chance(0.3)) for (int j = 0; j < f.n; j++) { double s = std::pow(10.0, r.range(-3, 3)); for (int i = 0; i < f.m; i++) f.A[i * f.n + j] *= s; } for (auto &v : xs) v = r.norm(); for (auto &v : x0) v = r.norm() * 3; }
  else if (f.kind == 1) { xs = {r.range(1, 5), r.range(0.4, 2), r.norm()}; x0 = {1, 1, 0}; } else if (f.kind == 2) { xs = {r.range(1, 5), r.range(0.8, 3), r.range(1, 4)}; x0 = {2, 1, 2}; } else { xs = {r.range(1, 5), r.range(0.3, 3)}; x0 = {1, 1}; }
  { Vec e(f.m); std::fill(f.y.begin(), f.y.end(), 0.0); resid(f, xs.data(), e.data()); for (int i = 0; i < f.m; i++) f.y[i] = e[i] + noise * r.norm(); }
  bool jac = r.chance(0.5), under = r.chance(0.03); int api = r.irange(0, 2), m = f.m; if (under) { m = f.m = std::max(0, f.n - 1); }
  c.mixv(f.y); c.mixv(f.t); c.mixd(f.kind); c.mixv(x0); c.nontrivial(); char d[120]; snprintf(d, sizeof d, "least squares model %d M=%d N=%d %s api %d%s", f.kind, m, f.n, jac ? "analytic" : "numeric", api, exact ? " exact" : "");
  custom_funcmult cf{rcb, &f}; custom_jacobian cj{jcb, &f}; In xi(x0, "start"); int n = f.n, rc; Vec xf; bool few = api > 0 && r.chance(0.15);
  if (api == 0) { Out o(n, "minimiser"); rc = levmar(&cf, jac ? &cj : NULL, xi, m, n, o); xf = o.vec(); }
  else { nls_object o = nls_init(m, n); if (few) o->Maxfev = r.irange(1, 4); if (api == 1) nls(o, &cf, jac ? &cj : NULL, xi); else { Vec dg(n); for (auto &v : dg) v = r.range(0.3, 3); In di(dg, "scale"); nls_scale(o, &cf, jac ? &cj : NULL, di, xi); } rc = o->retval; xf.assign(o->xopt, o->xopt + n); c.outi(o->nfev);
    if (!under) { long ev = f.calls; c.ok(jac ? o->nfev == ev : o->nfev <= ev, "lsq:count", "%s reports %d evaluations, made %ld", d, o->nfev, ev); if (jac) c.ok(o->njev == f.jcalls, "lsq:jcount", "%s reports %d Jacobians, made %ld", d, o->njev, f.jcalls); } free_nls(o); }
  c.outi(rc); c.outv(xf.data(), n); c.ok(!f.bad, "lsq:callback", "%s callback got wrong sizes", d); { char t[32]; snprintf(t, sizeof t, "lsq:code%d", rc); c.hit(t); }
  if (under) { c.ok(rc == 0, "lsq:underdetermined", "%s accepted with code %d", d, rc); bool same = true; for (int i = 0; i < n; i++) same = same && xf[i] == x0[i]; c.ok(same, "lsq:rejected-start", "%s moved the point", d); return; }
  bool fin = true; for (double v : xf) fin = fin && std::isfinite(v); if (!c.ok(fin, "lsq:finite", "%s code %d", d, rc)) return;
  LD s0 = ss(f, x0.data()), s1 = ss(f, xf.data()); c.ok(s1 <= s0 * (1 + 1e-14L), "lsq:descent", "%s code %d sum of squares %.12Lg -> %.12Lg", d, rc, s0, s1);
  if (few) { c.hit("lsq:few"); if (rc == 5) c.hit("lsq:limit"); return; }
  c.ok(rc >= 1 && rc <= 8, "lsq:code", "%s code %d", d, rc); if (rc == 5) { c.hit("lsq:exhausted"); return; }
  // first-order condition: cosine of the residual with every Jacobian column (or a negligible residual)
  Vec J(m * n), e(m); jaco(f, xf.data(), J.data()); resid(f, xf.data(), e.data()); LD ne = 0, ny = 0; for (int i = 0; i < m; i++) ne += sq(e[i]), ny += sq(f.y[i]); double worst = 0; for (int j = 0; j < n; j++) { LD a = 0, b = 0; for (int i = 0; i < m; i++) a += (LD)J[i * n + j] * e[i], b += sq(J[i * n + j]); if (sqrtl(b) * std::max(1.0, std::fabs(xf[j])) > 1e-6L * sqrtl(ny)) worst = std::max(worst, std::min((double)(fabsl(a) / sqrtl(b)), (double)fabsl(a) * std::max(1.0, std::fabs(xf[j])) / std::sqrt((double)ny + 1e-300))); }
  double rel = worst / std::sqrt((double)ny + 1e-300), cosine = ne > 0 ? worst / std::sqrt((double)ne) : 0; c.ok(rel <= 1e-6 || cosine <= 3e-4, "lsq:stationary", "%s code %d cosine %.3g relative gradient %.3g", d, rc, cosine, rel);
  if (exact && f.kind == 0) { double w = std::sqrt((double)(s1 / (ny + 1e-300L))); c.ok(w <= 1e-6, "lsq:exact", "%s residual %.3g of the data", d, w); }
  if (c.idx % 97 == 5) c.sample("%s code %d cosine %.2g, %ld evaluations", d, rc, cosine, f.calls);
}
void run_case(vf::Ctx &c) { vf::Rng &r = c.rng; int k = r.irange(0, 9); if (k < 6) minimise(c, r); else if (k < 8) onedim(c, r); else lsq(c, r); }
