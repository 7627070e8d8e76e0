// C09: invertible (and stationary) fits; root-reflection and stationarity helpers.
#include "fit.h"
extern "C" {
#include "talg.h"
}
const char *vf_driver_name = "c09_roots";
using namespace fit;
static LVec plus2sub(const double *b, int q) { LVec v(q); for (int i = 0; i < q; i++) v[i] = -b[i]; return v; }
// autocovariance generating polynomial of 1 + sum b_i z^i : sum_j b_j b_{j+k}
static LVec acgf(const LVec &b) { int n = b.size(); LVec g(n, 0); for (int k = 0; k < n; k++) for (int j = 0; j + k < n; j++) g[k] += b[j] * b[j + k]; return g; }
static void helpers(vf::Ctx &c) {
  vf::Rng &r = c.rng;
  // Random polynomial from chosen roots, away from the unit circle
  int n = r.irange(1, 7); std::vector<std::pair<LD, LD>> rt; bool allout = r.chance(0.4); int inside = 0;
  for (int i = 0; i < n;) {
    LD m = r.chance(0.5) || allout ? r.range(1.06, 3.0) : 1.0 / r.range(1.06, 3.0);
    if (i + 1 < n && r.chance(0.5)) { LD th = r.range(0.25, 2.9); rt.push_back({m * cosl(th), m * sinl(th)}); rt.push_back({m * cosl(th), -m * sinl(th)}); i += 2; inside += m < 1 ? 2 : 0; }
    else { rt.push_back({r.chance(0.5) ? m : -m, 0}); i++; inside += m < 1; }
  }
  for (size_t i = 0; i < rt.size(); i++) for (size_t j = 0; j < i; j++) if (hypotl(rt[i].first - rt[j].first, rt[i].second - rt[j].second) < 0.08L) { c.hit("skip:clustered-roots"); return; }
  // polynomial prod (1 - z/root), real
  std::vector<LD> re{1}, im{0};
  for (auto &z : rt) { LD d = z.first * z.first + z.second * z.second, a = -z.first / d, b = z.second / d; std::vector<LD> nr(re.size() + 1, 0), ni(re.size() + 1, 0); for (size_t i = 0; i < re.size(); i++) { nr[i] += re[i]; ni[i] += im[i]; nr[i + 1] += re[i] * a - im[i] * b; ni[i + 1] += re[i] * b + im[i] * a; } re = nr; im = ni; }
  Vec ma(n), ar(n); for (int i = 0; i < n; i++) { ma[i] = (double)re[i + 1]; ar[i] = -ma[i]; }
  // trailing zero coefficients are part of the contract (order padding)
  int pad = r.chance(0.3) ? r.irange(1, 2) : 0; for (int i = 0; i < pad; i++) { ma.push_back(0); ar.push_back(0); }
  int nn = n + pad;
  c.mixv(ma); c.nontrivial();
  { In a(ar, "phi"); int st = archeck(nn, a); c.outi(st); c.ok((st != 0) == (inside == 0), "archeck", "polynomial of degree %d (+%d zeros) with %d roots inside the unit circle: archeck says %d", n, pad, inside, st); c.hit(inside ? "archeck:nonstationary" : "archeck:stationary"); }
  { Vec b = ma; Vec keep = b; invertroot(nn, b.data()); c.outv(b.data(), nn);
    LD mg; bool inv = ora::stationary(plus2sub(b.data(), nn), &mg);
    c.ok(inv, "invertroot:still-noninvertible", "degree %d, %d roots inside before, margin after %.3Lg", n, inside, mg);
    if (inside == 0) { double w = 0; for (int i = 0; i < nn; i++) w = std::max(w, std::fabs(b[i] - keep[i])); c.ok(w <= 1e-12, "invertroot:changed-invertible", "degree %d largest change %.3g", n, w); c.hit("invertroot:unchanged"); }
    else {
      // expected result: every inside root replaced by its reciprocal (conjugate)
      std::vector<LD> er{1}, ei{0};
      for (auto z : rt) { LD d = z.first * z.first + z.second * z.second; if (d < 1) { z.first /= d; z.second /= d; d = z.first * z.first + z.second * z.second; } LD a = -z.first / d, b2 = z.second / d; std::vector<LD> nr(er.size() + 1, 0), ni(er.size() + 1, 0); for (size_t i = 0; i < er.size(); i++) { nr[i] += er[i]; ni[i] += ei[i]; nr[i + 1] += er[i] * a - ei[i] * b2; ni[i + 1] += er[i] * b2 + ei[i] * a; } er = nr; ei = ni; }
      double w = 0; for (int i = 0; i < nn; i++) w = std::max(w, std::fabs(b[i] - (i < n ? (double)er[i + 1] : 0.0)));
      c.ok(w <= 1e-6, "invertroot:reflection", "degree %d, %d inside roots: largest coefficient deviation %.3g", n, inside, w); c.hit("invertroot:reflected");
    }
  }
}
void run_case(vf::Ctx &c) {
  if (c.idx % 2) { helpers(c); return; }
  GenOpt o; o.methods = 3; o.match = 0.6; o.allopts = true;
  Spec sp = random_spec(c, o);
  // over-differenced and near-unit-root series push the optimiser to the boundary
  if (c.rng.chance(0.35) && sp.N > 20) { Vec w(sp.y); for (int i = sp.N - 1; i > 0; i--) w[i] -= w[i - 1]; sp.y = w; c.hit("overdifferenced"); }
  char d[200]; sp.describe(d, sizeof d);
  Obj ob(sp); ob.exec(); Model m = ob.model(); observe(c, m);
  char t[64]; snprintf(t, sizeof t, "%s:m%d:ret%d", kname[sp.kind], sp.method, m.retval); c.hit(t);
  c.ok(m.retval == 0 || m.retval == 1 || m.retval == 4 || m.retval == 7 || m.retval == 10 || m.retval == 12 || m.retval == 15, "retval-undocumented", "%s retval %d", d, m.retval);
  if (m.retval == 10 || m.retval == 12) { LD mg = 0; bool reg = m.retval == 10, st = ora::stationary(ora::L(reg ? m.phi : m.PHI), &mg); c.nontrivial(); c.ok((reg ? sp.p : sp.P) > 0 && (!st || mg < 1e-5L), "nonstationary-code", "%s code %d but the polynomial it names is stationary with margin %.4Lg", d, m.retval, mg); return; }
  c.ok(m.retval != 0 && m.retval != 7, "refusal", "%s refused with code %d", d, m.retval);
  if (m.retval != 1) return;
  c.mix(sp.hash()); c.mixv(sp.y);
  for (LD v : pack(m)) if (!c.ok(std::isfinite((double)v), "coefficient-not-finite", "%s", d)) return;
  c.ok(m.var > 0 && std::isfinite(m.var), "variance-not-positive", "%s var %g", d, m.var);
  c.ok(std::isfinite(m.loglik), "loglik-not-finite", "%s", d);
  LD mi, ms; 
  if (sp.q + sp.Q) { bool iv = is_invertible(m, &mi); c.nontrivial(); c.ok(iv || mi > -1e-6L, "noninvertible-ma", "%s margin %.6Lg theta0 %g", d, mi, sp.q ? m.theta[0] : m.THETA[0]); if (mi < 0.01L) c.hit("ma-near-boundary"); }
  if (sp.p + sp.P) { bool st = is_stationary(m, &ms); c.nontrivial(); c.ok(st || ms > -1e-6L, "nonstationary-ar", "%s margin %.6Lg phi0 %g", d, ms, sp.p ? m.phi[0] : m.PHI[0]); if (ms < 0.01L) c.hit("ar-near-boundary"); }
  if (c.idx % 98 == 4) c.sample("%s var=%.5g theta0=%.4g phi0=%.4g", d, m.var, sp.q ? m.theta[0] : 0, sp.p ? m.phi[0] : 0);
}
