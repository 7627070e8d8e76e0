// C26: special functions and probability distributions against Boost.Math in long double.
#include "vf.h"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
extern "C" {
#include "pdist.h"
}
const char *vf_driver_name = "c26_dist";
namespace {
namespace bm = boost::math; typedef bm::policies::policy<bm::policies::promote_double<false>, bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>> Pol; const Pol pol;
const LD PI = 3.141592653589793238462643383279502884L, S2 = 1.414213562373095048801688724209698079L;
LD ncdf(LD z) { return 0.5L * erfcl(-z / S2); }
LD npdf(LD z) { return expl(-z * z / 2) / sqrtl(2 * PI); }
LD gp(LD a, LD x) { return x <= 0 ? 0 : bm::gamma_p(a, x, pol); }
LD ib(LD a, LD b, LD x) { return x <= 0 ? 0 : x >= 1 ? 1 : bm::ibeta(a, b, x, pol); }
LD tc(LD t, LD n) { LD x = n / (n + t * t), h = 0.5L * ib(n / 2, 0.5L, x); return t > 0 ? 1 - h : t < 0 ? h : 0.5L; }
LD td(LD t, LD n) { return expl(lgammal((n + 1) / 2) - lgammal(n / 2) - (n + 1) / 2 * log1pl(t * t / n)) / sqrtl(n * PI); }
LD bd(LD x, LD a, LD b) { return expl((a - 1) * logl(x) + (b - 1) * log1pl(-x) + lgammal(a + b) - lgammal(a) - lgammal(b)); }
LD gd(LD x, LD k, LD th) { return expl((k - 1) * logl(x / th) - x / th - lgammal(k)) / th; }
double pos(vf::Rng &r, double lo, double hi) { return std::exp(r.range(std::log(lo), std::log(hi))); }
double prob(vf::Rng &r) { int k = r.irange(0, 6); double p = k == 0 ? std::pow(10.0, -r.range(1, 12)) : k == 1 ? 1 - std::pow(10.0, -r.range(1, 8)) : k == 2 ? r.pick(std::vector<double>{0.001, 0.005, 0.01, 0.025, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.975, 0.99, 0.995}) : r.range(0.001, 0.999); return p; }
LD worst[40];
}
static bool rel(vf::Ctx &c, const char *key, double got, LD want, LD tol, double a1, double a2 = 0, double a3 = 0) { c.out(got); bool g = fabsl((LD)got - want) <= tol + 1e-300L; return c.ok(g, key, "(%.17g, %.17g, %.17g) got %.17g want %.17Lg (tolerance %.2Lg)", a1, a2, a3, got, want, tol); }
static void unit(vf::Ctx &c, const char *key, double p, double a1, double a2, double a3) { c.ok(p >= -1e-13 && p <= 1 + 1e-13, key, "(%.17g, %.17g, %.17g) probability %.17g", a1, a2, a3, p); }
static void special(vf::Ctx &c) {
  vf::Rng &r = c.rng; c.hit("special");
  { double x = r.chance(0.2) ? r.range(-6, 6) * 1e-3 : r.chance(0.2) ? r.pick(std::vector<double>{0, 0.5, -0.5, 4, -4, 5.6, -5.6, 5.8, 0.46875, 100, -100}) : r.range(-7, 7); c.mixd(x); rel(c, "erf", erf(x), erfl(x), 4e-15L * fabsl(erfl(x)), x); rel(c, "erfc", erfc(x), erfcl(x), (4e-15L + 1e-15L * x * x) * erfcl(x) + 1e-307L, x); double xc = r.chance(0.5) ? x : pos(r, 0.01, 1000); if (xc > -20) { LD w = xc < 90 ? expl((LD)xc * xc) * erfcl(xc) : 0; if (xc >= 90) { LD z = xc; w = 1 / (z * sqrtl(PI)) * (1 - 1 / (2 * z * z) + 3 / (4 * powl(z, 4)) - 15 / (8 * powl(z, 6)) + 105 / (16 * powl(z, 8))); } rel(c, "erfcx", erfcx(xc), w, (1e-14L + 1e-15L * (xc < 0 ? xc * xc : 0) + 2e-19L * xc * xc) * w, xc); } }
  { double x = r.chance(0.3) ? r.range(-0.9999, 0.9999) : r.chance(0.5) ? 1 - pos(r, 1e-12, 0.2) : -1 + pos(r, 1e-12, 0.2); if (r.chance(0.03)) x = 0; double y = erfinv(x); c.out(y); LD w = erfl((LD)y); c.ok(fabsl(w - x) <= 4e-15L * fabs(x) + 2e-16L, "erfinv", "erfinv(%.17g)=%.17g whose erf is %.17Lg", x, y, w); double z = r.chance(0.5) ? r.range(0.0625, 1.9999) : pos(r, 1e-30, 0.0625); double v = erfcinv(z); c.out(v); LD q = erfcl((LD)v); c.ok(fabsl(q - z) <= (z < 0.0625 ? (4e-15L * (1 + v * v)) * z : 1e-14L), "erfcinv", "erfcinv(%.17g)=%.17g whose erfc is %.17Lg", z, v, q); c.ok(erfinv(1) > 1e308 && erfinv(-1) < -1e308 && erfcinv(0) > 1e308 && erfcinv(2) < -1e308, "erfinv:ends", "not infinite at the ends"); }
  { double x = r.chance(0.2) ? r.irange(1, 170) : r.chance(0.2) ? -r.range(0.01, 15) : r.chance(0.2) ? pos(r, 1e-10, 1) : r.range(0.01, 171); c.mixd(x); LD fr = fabsl(x - roundl((LD)x)); if (x > 0 || fr > 1e-3L) { LD w = tgammal(x); rel(c, "gamma", gamma(x), w, (4e-15L + 4e-16L * fabs(x) * (1 + logl(1 + fabs(x))) + (x < 0 ? 1e-15L * fabs(x) / fr : 0)) * fabsl(w), x); } double y = r.chance(0.3) ? pos(r, 1e-8, 1e8) : r.chance(0.3) ? r.pick(std::vector<double>{0.5, 0.6796875, 1, 1.5, 2, 4, 12}) + r.range(-1e-3, 1e-3) : r.range(0.001, 60); LD g = lgammal(y); rel(c, "gamma_log", gamma_log(y), g, 4e-15L * std::max(1.0L, fabsl(g)), y); int n = r.irange(0, 169); LD f = tgammal(n + 1.0L); rel(c, "factorial", factorial(n), f, 1e-13L * f, n); rel(c, "recfact", recfact(n + 1), tgammal(n + 2.0L), 1e-13L * tgammal(n + 2.0L), n + 1); }
  { double a = pos(r, 0.01, 200), b = pos(r, 0.01, 200); LD w = lgammal(a) + lgammal(b) - lgammal((LD)a + b), e = 4e-15L * (3 + fabsl(lgammal(a)) + fabsl(lgammal(b)) + fabsl(lgammal((LD)a + b))); rel(c, "beta_log", beta_log(a, b), w, e, a, b); rel(c, "beta", beta(a, b), expl(w), 2 * e * expl(w), a, b); rel(c, "beta:symmetric", beta(a, b), beta(b, a), 2 * e * expl(w), a, b); }
  { double x = r.range(-20, 20), y = r.range(-20, 20); c.ok(fix(x) == std::trunc(x) && normf(x) == std::fabs(x) && r8_max(x, y) == std::max(x, y), "fix", "%g %g", x, y); double z = r.chance(0.5) ? pos(r, 1e-15, 10) : -pos(r, 1e-15, 0.99); rel(c, "log1p", log1p(z), log1pl(z), 1e-15L * fabsl(log1pl(z)), z); }
}
static void incomplete(vf::Ctx &c) {
  vf::Rng &r = c.rng; c.hit("incomplete");
  { double a = r.chance(0.3) ? r.irange(1, 400) / 2.0 : pos(r, 0.02, 2000), x = r.chance(0.7) ? a * std::exp(r.norm() * std::min(2.0, 3 / std::sqrt(a))) : pos(r, 1e-6, 3000); c.mixd(a); c.mixd(x); LD w = gp(a, x), cond = 1e-12L + 4e-15L * (a + x) * (1 + fabsl(logl(x))); double p = pgamma(x, a), q = qgamma(x, a); rel(c, "pgamma", p, w, cond, x, a); rel(c, "qgamma", q, 1 - w, cond, x, a); c.ok(std::fabs(p + q - 1) <= 1e-14, "gamma:complement", "(%g, %g) lower %.17g upper %.17g", x, a, p, q); unit(c, "pgamma:unit", p, x, a, 0); double x2 = x * (1 + pos(r, 1e-6, 1)); c.ok(pgamma(x2, a) >= p - 2 * cond, "pgamma:monotone", "a=%g: %.17g at %g, %.17g at %g", a, p, x, pgamma(x2, a), x2); }
  { double a = r.chance(0.4) ? r.irange(1, 300) / 2.0 : pos(r, 0.05, 1000), b = r.chance(0.3) ? 0.5 : r.chance(0.4) ? r.irange(1, 300) / 2.0 : pos(r, 0.05, 1000), x = r.chance(0.6) ? std::min(0.999999, std::max(1e-6, a / (a + b) + r.norm() * 2 * std::sqrt(a * b / (a + b + 1)) / (a + b))) : r.u(); c.mixd(a); c.mixd(b); c.mixd(x); LD w = ib(a, b, x), cond = 1e-12L + 1e-14L * (a + b) * (1 + fabsl(logl(x + 1e-300L)) + fabsl(log1pl(-x))) ; double p = ibeta(x, a, b), q = ibetac(x, a, b); rel(c, "ibeta", p, w, cond, x, a, b); rel(c, "ibetac", q, 1 - w, cond + 1e-15L * (x < 1 && x > 0 ? bd(x, a, b) : 0), x, a, b); rel(c, "betacdf", betacdf(x, a, b), w, cond, x, a, b); unit(c, "ibeta:unit", p, x, a, b);
    double x2 = x + (1 - x) * r.u(); c.ok(ibeta(x2, a, b) >= p - 2 * cond, "ibeta:monotone", "a=%g b=%g", a, b); if (x > 0 && x < 1) { LD d = bd(x, a, b), e = cond * d * 4 + 2e-16L * d * b / (1 - x); rel(c, "betapdf", betapdf(x, a, b), d, e, x, a, b); rel(c, "ibetad", ibetad(x, a, b), d, e, x, a, b); }
    c.ok(ibeta(0, a, b) == 0 && std::fabs(ibeta(1, a, b) - 1) < 1e-14, "ibeta:ends", "a=%g b=%g: %g %g", a, b, ibeta(0, a, b), ibeta(1, a, b)); if (a > 1) c.ok(betapdf(0, a, b) == 0, "betapdf:zero", "a=%g b=%g: %g", a, b, betapdf(0, a, b)); if (b > 1) c.ok(betapdf(1, a, b) == 0, "betapdf:one", "a=%g b=%g: %g", a, b, betapdf(1, a, b)); }
}
static void normal_t(vf::Ctx &c) {
  vf::Rng &r = c.rng; c.hit("normal,t"); double mu = r.range(-50, 50), sd = pos(r, 1e-3, 1e3), z = r.range(-8, 8), x = mu + sd * z; LD zz = ((LD)x - mu) / sd, ez = 2e-16L * (fabs(mu) + fabs(x)) / sd + 4e-16L * fabsl(zz); c.mixd(x); c.mixd(mu);
  rel(c, "normalpdf", normalpdf(x, mu, sd), npdf(zz) / sd, (4e-15L * (1 + zz * zz) + 2 * ez * fabsl(zz)) * npdf(zz) / sd, x, mu, sd); double p = normalcdf(x, mu, sd); rel(c, "normalcdf", p, ncdf(zz), 4e-15L + 2 * ez, x, mu, sd); unit(c, "normalcdf:unit", p, x, mu, sd); c.ok(normalcdf(x + sd * pos(r, 1e-6, 2), mu, sd) >= p - 1e-14 - 4 * (double)ez, "normalcdf:monotone", "x=%g", x);
  double pr = prob(r); double q = normalinv(pr, mu, sd); c.out(q); LD back = ncdf(((LD)q - mu) / sd); c.ok(fabsl(back - pr) <= 4e-15L + 2 * 2e-16L * (fabs(mu) + fabs(q)) / sd, "normalinv", "p=%.17g mu=%g sigma=%g gave %.17g whose probability is %.17Lg", pr, mu, sd, q, back);
  int df = r.chance(0.5) ? r.irange(1, 30) : r.chance(0.9) ? r.irange(1, 1000) : r.irange(1001, 5000); double t = r.chance(0.8) ? r.range(-6, 6) : r.norm() * pos(r, 1, 1e5); if (r.chance(0.03)) t = 0; if (r.chance(0.02)) t = (r.chance(0.5) ? 1 : -1) * 1e200; c.mixd(t); c.mix(df); LD cd = 1e-12L + 1e-14L * df + std::min(0.5L * fabs(t), df * 2e-16L / (fabs(t) + 1e-300L)); LD w = fabs(t) > 1e100 ? (t > 0 ? 1 : 0) : tc(t, df); double tp = tcdf(t, df); rel(c, "tcdf", tp, w, cd, t, df); unit(c, "tcdf:unit", tp, t, df, 0); c.ok(std::fabs(tp + tcdf(-t, df) - 1) <= 1e-14, "tcdf:symmetric", "t=%g df=%d", t, df);
  if (fabs(t) < 1e100) { rel(c, "tpdf", tpdf(t, df), td(t, df), (1e-13L + 4e-15L * df) * td(t, df) * (1 + log1pl(t * t / df) * df * 0.1L), t, df); c.ok(tcdf(t + pos(r, 1e-4, 2), df) >= tp - 2 * (double)cd, "tcdf:monotone", "t=%g df=%d", t, df); }
  double u = r.chance(0.7) ? r.range(0.0005, 0.9995) : prob(r); double ti = tinv(u, df); c.out(ti); LD tb = tc(ti, df), dn = td(ti, df); LD xb = df / (df + (LD)ti * ti); LD slack = std::min(1e-4L, 1e-7L * (xb < 1 ? bd(xb, df / 2.0L, 0.5L) : 1000)) + 1e-12L * df + 1e-11L; if (df > 1000) slack = 1e-7L * std::min(u, 1 - u) + 1e-9L; c.ok(fabsl(tb - u) <= slack, "tinv", "p=%.17g df=%d gave %.17g whose probability is %.17Lg", u, df, ti, tb); c.ok(u == 0.5 || (ti < 0) == (u < 0.5), "tinv:sign", "p=%g df=%d gave %g", u, df, ti); (void)dn;
  if (df >= 30) { double ta = tinv_appx(u, df); c.out(ta); LD z0 = fabs(normalinv(u, 0, 1)); if (z0 < 4) c.ok(fabsl(tc(ta, df) - u) <= 1e-5L, "tinv_appx", "p=%g df=%d gave %g whose probability is %.12Lg", u, df, ta, tc(ta, df)); }
  if (c.idx % 101 == 3) c.sample("tcdf(%g,%d)=%.15g oracle %.15Lg; tinv(%g)=%.12g", t, df, tp, w, u, ti);
}
static void fgc(vf::Ctx &c) {
  vf::Rng &r = c.rng; c.hit("F,gamma,chi"); int a = r.chance(0.7) ? r.irange(1, 20) : r.irange(1, 300), b = r.chance(0.5) ? r.irange(1, 30) : r.irange(1, 1000); double x = r.chance(0.1) ? 0 : r.chance(0.8) ? pos(r, 0.05, 20) : pos(r, 1e-4, 1e4); c.mixd(x); c.mix(a * 1000 + b); LD y = (LD)a * x / (b + (LD)a * x), w = ib(a / 2.0L, b / 2.0L, y), cd = 2e-12L + 1e-14L * (a + b); if (x > 0) { LD z = b / ((LD)b + (LD)a * x); w = (LD)a * x < b ? ib(a / 2.0L, b / 2.0L, y) : 1 - ib(b / 2.0L, a / 2.0L, z); }
  double p = fcdf(x, a, b); rel(c, "fcdf", p, w, cd, x, a, b); unit(c, "fcdf:unit", p, x, a, b); c.ok(fcdf(x + pos(r, 1e-4, 5), a, b) >= p - 2 * (double)cd, "fcdf:monotone", "x=%g %d %d", x, a, b);
  if (x > 0) { LD l = a / 2.0L * logl((LD)a / b) + (a / 2.0L - 1) * logl(x) - (a + b) / 2.0L * log1pl((LD)a * x / b) + lgammal((a + b) / 2.0L) - lgammal(a / 2.0L) - lgammal(b / 2.0L), d = expl(l); rel(c, "fpdf", fpdf(x, a, b), d, d * (1e-12L + 1e-14L * (a + b) * (1 + fabsl(logl(y)) + fabsl(log1pl(-y)))), x, a, b); } else if (a > 2) c.ok(fpdf(0, a, b) == 0, "fpdf:zero", "%d %d: %g", a, b, fpdf(0, a, b));
  double u = r.range(0.001, 0.999); double q = finv(u, a, b); c.out(q); { LD z = (LD)a * q / (b + (LD)a * q), k = q >= 0 ? ib(a / 2.0L, b / 2.0L, z) : -1; c.ok(q >= 0 && fabsl(k - u) <= std::min(1e-4L, 2e-7L * bd(z, a / 2.0L, b / 2.0L)) + 1e-9L, "finv", "p=%.17g %d %d gave %.17g whose probability is %.17Lg", u, a, b, q, k); } c.ok(finv(0, a, b) == 0 && finv(1, a, b) > 1e300, "finv:ends", "%d %d", a, b);
  { double A = pos(r, 0.3, 200), B = pos(r, 0.3, 200); double v = betainv(u, A, B); c.out(v); LD k = v >= 0 && v <= 1 ? ib(A, B, v) : -1; c.ok(fabsl(k - u) <= std::min(1e-4L, 2e-7L * (v > 0 && v < 1 ? bd(v, A, B) : 1e4L)) + 1e-9L, "betainv", "p=%.17g (%g,%g) gave %.17g whose probability is %.17Lg", u, A, B, v, k); c.ok(betainv(0, A, B) == 0 && betainv(1, A, B) == 1, "betainv:ends", "%g %g", A, B); }
  double k = r.chance(0.3) ? r.irange(1, 100) / 2.0 : pos(r, 0.05, 500), th = pos(r, 1e-3, 1e3), g = k * th * std::exp(r.norm() * std::min(1.5, 3 / std::sqrt(k))); LD t = (LD)g / th, gc = 1e-12L + 1e-14L * (k + t) * (1 + fabsl(logl(t))); double gpv = gammacdf(g, k, th); rel(c, "gammacdf", gpv, gp(k, t), gc, g, k, th); unit(c, "gammacdf:unit", gpv, g, k, th); rel(c, "gammapdf", gammapdf(g, k, th), gd(g, k, th), gd(g, k, th) * (1e-13L + 1e-14L * (k + t) * (1 + fabsl(logl(t)))), g, k, th); c.ok(gammapdf(-g, k, th) == 0 && gammacdf(-g, k, th) == 0 && gammacdf(0, k, th) == 0, "gamma:negative", "k=%g", k);
  { double pr = r.chance(0.8) ? r.range(0.001, 0.999) : prob(r); double v = gammainv(pr, k, th); c.out(v); LD kk = gp(k, (LD)v / th); c.ok(fabsl(kk - pr) <= 1e-9L * std::min(pr, 1 - pr) + 4 * gc, "gammainv", "p=%.17g k=%g th=%g gave %.17g whose probability is %.17Lg", pr, k, th, v, kk); }
  int df = r.chance(0.6) ? r.irange(1, 40) : r.irange(1, 1000); double h = df * std::exp(r.norm() * std::min(1.5, 3 / std::sqrt((double)df))); LD cc = 1e-12L + 1e-14L * (df + h) * (1 + fabsl(logl(h))); double cp = chicdf(h, df); rel(c, "chicdf", cp, gp(df / 2.0L, h / 2.0L), cc, h, df); unit(c, "chicdf:unit", cp, h, df, 0); rel(c, "chipdf", chipdf(h, df), gd(h, df / 2.0L, 2), gd(h, df / 2.0L, 2) * (1e-13L + cc), h, df); double ci = chiinv(u, df); c.out(ci); LD cb = gp(df / 2.0L, (LD)ci / 2); c.ok(fabsl(cb - u) <= 1e-9L * std::min(u, 1 - u) + 4e-12L + 1e-13L * df, "chiinv", "p=%.17g df=%d gave %.17g whose probability is %.17Lg", u, df, ci, cb);
  if (df > 2) c.ok(chipdf(0, df) == 0, "chipdf:zero", "df=%d", df); else if (df == 2) c.ok(std::fabs(chipdf(0, 2) - 0.5) < 1e-14, "chipdf:zero", "df=2: %g", chipdf(0, 2)); else c.ok(chipdf(0, 1) > 1e300, "chipdf:zero", "df=1: %g", chipdf(0, 1));
  if (c.idx % 101 == 3) c.sample("fcdf(%g,%d,%d)=%.15g oracle %.15Lg", x, a, b, p, w);
}
void run_case(vf::Ctx &c) { c.nontrivial(); for (int i = 0; i < 4; i++) { special(c); incomplete(c); normal_t(c); fgc(c); } }
