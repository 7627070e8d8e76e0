// C08: successful fits sit at a local optimum of the objective they claim to optimise.
#include "fit.h"
const char *vf_driver_name = "c08_optimality";
using namespace fit;
static void judge(vf::Ctx &c, int k) {
  GenOpt o; o.methods = 7; o.match = 0.85; o.nmin = 60; o.maxp = 2; o.maxq = 2; o.smax = 7;
  Spec sp = random_spec(c, o); jitter(sp.y, k);
  char d[200]; sp.describe(d, sizeof d);
  Obj ob(sp); ob.exec(); Model m = ob.model(); observe(c, m);
  char t[64]; snprintf(t, sizeof t, "opt%d:ret%d", sp.opt, m.retval); c.hit(t);
  if (VF_NO_ORACLE || m.retval != 1 || sp.ncoef() == 0) return;
  bool ml = sp.method != 2;
  LD ms, mi; bool st = is_stationary(m, &ms), iv = is_invertible(m, &mi);
  if (ml && (!st || ms < 0.02L || !iv || mi < 0.02L)) { c.hit("skip:boundary"); return; }
  if (!ml && (ms < 0.005L || mi < 0.005L)) { c.hit("skip:boundary"); return; }
  // Root reflection folds the invertible region at double real roots: there a genuine optimum of the
  // unreflected problem need not be one in the neighbourhood of the reflected point.
  auto dbl = [](const Vec &a) { return a.size() == 2 && std::fabs(a[0] * a[0] + 4 * a[1]) < 0.02; };
  if (dbl(m.theta) || dbl(m.THETA)) { c.hit("skip:double-root"); return; }
  LVec b = pack(m); Eval e0 = eval(sp, b, ml); if (!e0.ok) { c.inconclusive("oracle"); return; }
  c.mix(sp.hash()); c.mixv(sp.y); c.nontrivial();
  int Nu = sp.Nused(), den = ml ? Nu : Nu - (sp.p + sp.s * sp.P), n = b.size();
  double worst = 0; int wi = -1; LD wb = 0;
  for (int i = 0; i < n; i++) {
    bool loc = i >= sp.p + sp.q + sp.P + sp.Q;
    // conditional standard error of coordinate i from the curvature
    LD h = loc ? 1e-2L * sqrtl(e0.ssq / den) : 1e-2L, f1, f2, H; int tries = 0;
    for (;; tries++) {
      LVec bp = b; bp[i] += h; Eval ep = eval(sp, bp, ml); bp[i] = b[i] - h; Eval em = eval(sp, bp, ml);
      if (!ep.ok || !em.ok) { H = -1; break; }
      f1 = ep.obj; f2 = em.obj; H = (f1 + f2 - 2 * e0.obj) / (h * h);
      if (!loc || tries == 3 || !(H > 0)) break;
      LD se = 1 / sqrtl(Nu * H); if (h < 0.5L * se && h > 0.02L * se) break; h = 0.2L * se;
    }
    LD se = H > 0 ? std::min(1 / sqrtl(Nu * H), loc ? 1e30L : 0.3L) : 0.1L; if (loc && !(H > 0)) continue;
    for (LD mult : {-1.0L, -0.3L, -0.1L, 0.1L, 0.3L, 1.0L}) {
      LVec bp = b; bp[i] += mult * se; Eval ep = eval(sp, bp, ml); c.checks++;
      if (!ep.ok) continue;
      double gain = (double)(Nu * (e0.obj - ep.obj));
      if (gain > worst) { worst = gain; wi = i; wb = mult * se; }
    }
  }
  if (getenv("VF_DBG")) { fprintf(stderr, "GAIN %d %d %d %.6g\n", sp.opt, sp.method, (int)sp.kind, worst); }
  // L-BFGS stops on a small relative decrease (documented 'possible success', code 6): not held to optimality
  double lim = sp.opt == 6 ? 1e9 : sp.opt == 7 ? 2.0 : 0.5;
  c.hit(worst <= 0.01 ? "gain<=0.01" : worst <= 0.1 ? "gain<=0.1" : "gain>0.1");
  c.ok(worst <= lim, ml ? "not-a-local-maximum:ml" : "not-a-local-maximum:css", "%s moving coefficient %d by %.4Lg raises the log-likelihood by %.4g", d, wi, wb, worst);
  // trivial model with the same location coefficients
  LVec z = b; for (int i = 0; i < sp.p + sp.q + sp.P + sp.Q; i++) z[i] = 0; Eval e1 = eval(sp, z, ml);
  if (e1.ok && sp.opt != 6) c.ok(Nu * (e0.obj - e1.obj) <= lim, "worse-than-no-arma", "%s objective %.9Lg, with all ARMA coefficients zero %.9Lg", d, e0.obj, e1.obj);
  if (c.idx % 97 == 3) c.sample("%s objective %.8Lg best single-coefficient gain %.3g log-likelihood units; trivial model %.8Lg", d, e0.obj, worst, e1.obj);
}
void run_case(vf::Ctx &c) { vf::confirmed(c, [&](int k) { judge(c, k); }); }
