// Pairs of fits: common pieces of the relational checks.
#pragma once
#include "fit.h"
namespace fit {
struct Fc { Model m; Vec x, v; Vec vc; };
inline bool fitall(Spec sp, int L, const Vec &nx, Fc &f) {
  Obj ob(sp); ob.exec(); f.m = ob.model(); observe(vf::ctx(), f.m);
  if (f.m.retval != 1) return false;
  Out xp(L, "xpred"), am(L, "amse"); In n(nx, "newxreg"); ob.predict(L, sp.r ? n.p : nullptr, xp, am);
  f.x = xp.vec(); f.v = am.vec(); vf::ctx().outv(xp, L); vf::ctx().outv(am, L);
  int k = f.m.lvcov; Out vc(k, "vcov"); ob.vcov(vc); f.vc = vc.vec(); vf::ctx().outv(vc, k);
  return true;
}
// distance to other local optima: pure or clearly identified low-order models only
inline bool identified(const Model &m) {
  LD ms, mi; if (!is_stationary(m, &ms) || ms < 0.05L || !is_invertible(m, &mi) || mi < 0.05L) return false;
  // no near-common factors between AR and MA polynomials: resultant-like test through values of the MA polynomial at AR roots
  LVec fp = m.fphi(), ft = m.fth();
  if (fp.empty() || ft.empty()) return true;
  // compare the spectra: if 1/phi and theta nearly cancel the psi weights are small
  LVec w = ora::psi(fp, ft, 30); LD s = 0; for (int j = 1; j <= 30; j++) s += w[j] * w[j];
  return s > 0.15L;
}
// The point is a genuine local optimum of the surface and its likelihood is reported correctly.
inline bool local_opt(const Fc &f) {
  const Spec &sp = f.m.sp; bool ml = sp.method != 2; LVec b = pack(f.m); Eval e0 = eval(sp, b, ml); if (!e0.ok) return false;
  int Nu = sp.Nused(), n = b.size(), na = sp.p + sp.q + sp.P + sp.Q;
  LD ll = -0.5L * Nu * (2 * e0.obj + 1 + logl(2 * 3.14159265358979323846L));
  if (fabsl(ll - f.m.loglik) > 0.05L) return false;
  for (int i = 0; i < n; i++) for (LD mult : {-0.3L, -0.05L, 0.05L, 0.3L}) {
    LVec q = b; LD st = 0.1L; if (i >= na) { LD hh = 1e-2L * sqrtl(e0.ssq / Nu); q[i] += hh; Eval a = eval(sp, q, ml); q[i] = b[i] - hh; Eval z = eval(sp, q, ml); q[i] = b[i]; LD H = (a.obj + z.obj - 2 * e0.obj) / (hh * hh); if (!(H > 0)) return false; st = 1 / sqrtl(H * Nu); }
    q[i] += mult * st; Eval e = eval(sp, q, ml); if (e.ok && Nu * (e0.obj - e.obj) > 0.05L) return false;
  }
  return true;
}
}  // namespace fit
