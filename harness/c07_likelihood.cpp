// C07: reported likelihood, variance, residuals and AIC describe the reported model.
#include "fit.h"
const char *vf_driver_name = "c07_likelihood";
using namespace fit;
void run_case(vf::Ctx &c) {
  GenOpt o; o.methods = 7; o.match = 0.8;
  if (c.rng.chance(0.15)) { o.nmin = 20; o.nmax = 40; o.smax = 4; }
  Spec sp = random_spec(c, o);
  char d[200]; sp.describe(d, sizeof d);
  Obj ob(sp); ob.exec(); Model m = ob.model(); observe(c, m);
  char t[64]; snprintf(t, sizeof t, "%s:m%d:ret%d", kname[sp.kind], sp.method, m.retval); c.hit(t);
  snprintf(t, sizeof t, "opt%d:ret%d", sp.opt, m.retval); c.hit(t);
  if (VF_NO_ORACLE || m.retval != 1) return;
  c.mix(sp.hash()); c.mixv(sp.y);
  bool ml = sp.method != 2;
  c.ok(m.ncoeff == sp.ncoef(), "coefficient-count", "%s ncoeff %d expected %d", d, m.ncoeff, sp.ncoef());
  LD ms; bool st = is_stationary(m, &ms);
  LVec b = pack(m); for (LD v : b) if (!std::isfinite((double)v)) { c.fail("coefficient-not-finite", "%s", d); return; }
  if (ml && !(st && ms > 1e-4L)) { c.hit("near-unit-root"); return; }
  Eval e = eval(sp, b, ml);
  if (!e.ok) { c.inconclusive("oracle"); return; }
  c.nontrivial();
  int Nu = sp.Nused();
  double ll = (double)(-0.5L * Nu * (2 * e.obj + 1 + logl(2 * 3.14159265358979323846L)));
  // the library evaluates at a point displaced by a finite-difference step; gradient is small at the optimum
  double atol = 2e-3 + 2e-5 * Nu + 1e-6 * std::fabs(ll);
  // explosive conditional fits: where moving the coefficients in the seventh digit already moves the objective, the report cannot be held to more
  if (!ml) { vf::Rng q(c.idx + 77); bool stiff = false; for (int k = 0; k < 3 && !stiff; k++) { LVec z = b; for (int i = 0; i < sp.p + sp.q + sp.P + sp.Q; i++) z[i] += (q.chance(0.5) ? 1e-7L : -1e-7L) * (1 + fabsl(z[i])); Eval f = eval(sp, z, ml); stiff = !f.ok || fabsl(f.obj - e.obj) * Nu > 0.3 * atol; } if (stiff) { c.hit("skip:explosive"); return; } }
  c.ok(std::fabs(m.loglik - ll) <= atol, ml ? "loglik:exact" : "loglik:css", "%s loglik %.12g, independent evaluation at the reported coefficients %.12g", d, m.loglik, ll);
  if (ml) c.close("aic:formula", m.aic, -2 * m.loglik + 2.0 * sp.ncoef() + 2.0, 1e-9, 1, d);
  int den = ml ? Nu : sp.kind == SARIMAX ? Nu - (sp.p + sp.s * sp.P) : Nu;
  double v = (double)(e.ssq / den);
  c.ok(std::fabs(m.var - v) <= 2e-3 * v, ml ? "variance:ml" : "variance:css", "%s var %.12g, profiled variance %.12g", d, m.var, v);
  if (!m.res.empty()) {
    double sd = sqrt(v), worst = 0; int wi = 0;
    for (int i = 0; i < Nu; i++) { double r = ml ? (double)(e.u[i] / sqrtl(e.v[i])) : (double)e.e[i]; double df = std::fabs(m.res[i] - r); if (!(df <= worst)) worst = df, wi = i; }
    c.ok(worst <= 2e-2 * sd, ml ? "residuals:innovations" : "residuals:css", "%s res[%d]=%.10g differs by %.3g from the standardised innovation (sd %.3g)", d, wi, m.res[wi], worst, sd);
    double ss = 0; for (double x : m.res) ss += x * x;
    c.ok(std::fabs(ss - m.var * den) <= 1e-6 * ss, "residuals:ssq", "%s sum of squared residuals %.12g, var*n %.12g", d, ss, m.var * den);
  }
  if (c.idx % 97 == 3) c.sample("%s loglik=%.6f oracle=%.6f var=%.6g oracle=%.6g", d, m.loglik, ll, m.var, v);
}
