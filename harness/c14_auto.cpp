// C14: Auto-ARIMA respects its limits and options, reports coherent criteria, and its searches deliver what they promise.
#include "aa.h"
extern "C" {
#include "autoutils.h"
}
const char *vf_driver_name = "c14_auto";
using namespace aa;
void run_case(vf::Ctx &c) {
  Cfg f = random_cfg(c, true); char d[400]; f.describe(d, sizeof d); vf::Rng &g = c.rng;
  Run a(f); a.exec(); Res x = a.get(); aa::observe(c, x);
  char t[96]; snprintf(t, sizeof t, "%s:%s:%s:ret%d", f.stepwise ? "stepwise" : "exhaustive", f.approx ? "approx" : "exact", f.shape, x.retval); c.hit(t);
  if (x.retval != 0) { snprintf(t, sizeof t, "order:d%dD%d:P%dQ%d:%s", x.d, x.D, x.P, x.Q, x.idrift ? "drift" : x.M > f.r ? "mean" : "none"); c.hit(t); }
  if (VF_NO_ORACLE) return;
  c.mix(f.hash()); c.mixv(f.y); c.nontrivial();
  bool sea = f.seasonal && f.s > 1;
  if (x.retval == 0) { c.ok(f.flat, "no-model", "%s reports no model", d); return; }
  c.ok(x.p >= 0 && x.q >= 0 && x.d >= 0 && x.P >= 0 && x.D >= 0 && x.Q >= 0 && x.p <= f.pm && x.q <= f.qm && x.d <= f.dm && x.P <= f.Pm && x.D <= f.Dm && x.Q <= f.Qm, "limit:order", "%s selected (%d,%d,%d)(%d,%d,%d)", d, x.p, x.d, x.q, x.P, x.D, x.Q);
  if (!f.stepwise) c.ok(x.p + x.q + x.P + x.Q <= f.omax, "limit:total", "%s selected (%d,%d,%d)(%d,%d,%d)", d, x.p, x.d, x.q, x.P, x.D, x.Q);
  if (f.stationary) c.ok(x.d == 0 && x.D == 0, "option:stationary", "%s selected d=%d D=%d", d, x.d, x.D);
  if (!sea) c.ok(x.P == 0 && x.D == 0 && x.Q == 0, "option:seasonal", "%s selected (%d,%d,%d)", d, x.P, x.D, x.Q);
  int diffs = x.d + x.D;
  c.ok(x.idrift == 0 || x.idrift == 1, "drift:flag", "%s idrift %d", d, x.idrift); if (x.idrift != 0 && x.idrift != 1) return;
  int hasmean = x.M - f.r - x.idrift;
  c.ok(hasmean == 0 || hasmean == 1, "terms:count", "%s M=%d with %d regressors and drift %d", d, x.M, f.r, x.idrift);
  if (diffs > 0) c.ok(hasmean == 0, "terms:mean-of-differenced", "%s M=%d d=%d D=%d", d, x.M, x.d, x.D);
  if (diffs != 1) c.ok(x.idrift == 0, "terms:drift-order", "%s drift with d=%d D=%d", d, x.d, x.D);
  bool flat = f.flat;
  if (!flat) {
    if (!f.mean) c.ok(hasmean == 0 && x.mean == 0, "option:mean", "%s M=%d mean %g", d, x.M, x.mean);
    if (!f.drift) c.ok(x.idrift == 0, "option:drift", "%s drift selected", d);
  }
  c.ok(x.Nused == f.N - x.d - (x.D ? f.s * x.D : 0) && x.ncoeff == x.k() - 1, "terms:sizes", "%s Nused %d ncoeff %d", d, x.Nused, x.ncoeff);
  if (f.r == 0) {   // the differencing orders are those of the selectors
    int D = 0; Vec w = f.y; if (sea && !f.stationary) { double al = f.salpha; D = nsdiffs(In(f.y, "series"), f.N, f.s, &al, SEASN[f.seas], &f.Dm); }
    for (int k = 0; k < D; k++) { Vec z; for (size_t i = f.s; i < w.size(); i++) z.push_back(w[i] - w[i - f.s]); w = z; }
    int dd = 0; if (!f.stationary) { double al = f.alpha; dd = ndiffs(In(w, "series"), w.size(), &al, TESTN[f.test], TYPEN[f.type], &f.dm); }
    c.ok(x.D == D && x.d == dd, "differencing", "%s selected d=%d D=%d, the selectors give %d and %d", d, x.d, x.D, dd, D);
  }
  if (flat || x.retval != 1) { snprintf(t, sizeof t, "unfitted:ret%d", x.retval); if (!flat) c.hit(t); }
  Spec sp = spec(f, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift || hasmean); Cand own; bool ownfit = false;
  if (!flat) { own = cand(sp); ownfit = true; }
  int n = x.Nused, k = x.k();
  if (!flat && x.retval == 1 && x.aic < 1e300) {
    bool fallback = f.approx && !own.admissible;   // no candidate could be refitted by maximum likelihood
    if (fallback) c.hit("fallback");
    else {
      c.close("formula:aic", x.aic, -2 * x.loglik + 2.0 * k, 1e-9, 1, d);
      double ss = 0; for (double e : x.res) ss += e * e; c.close("formula:sigma2", x.sigma2, ss / (n - k + 1), 1e-9, 0, d);
      c.close("formula:var", x.var, ss / n, 1e-6, 0, d);
    }
    c.close("formula:bic", x.bic, x.aic + k * (log((double)n) - 2), 1e-9, 1, d);
    if (n - k - 1 > 0) c.close("formula:aicc", x.aicc, x.aic + 2.0 * k * (k + 1) / (n - k - 1), 1e-9, 1, d);
    c.ok(std::isfinite(x.loglik) && x.var > 0, "formula:finite", "%s loglik %g var %g", d, x.loglik, x.var);
  }
  if (flat || f.approx || !ownfit) return;
  // what the search promises, judged by fitting the candidates directly
  // (a single moving-average coefficient is not subject to the root rule)
  bool finite = own.admissible || (own.fitted && x.q + x.Q <= 1 && std::isfinite(own.ll) && inside(own.m.fphi(), 1.02L)); if (finite && !own.admissible) c.hit("judged:moving-average-near-unit-root");
  double have = x.retval == 1 && finite ? x.icv(f.ic) : 1e300; // a selected model with a root inside the rejected band has no finite criterion: every admissible candidate beats it
  bool rejected = x.retval == 1 && own.fitted && ((x.p + x.P > 0 && !inside(own.m.fphi(), 1.005L)) || (x.q + x.Q > 1 && !inside(ora::neg(own.m.fth()), 1.005L)));
  bool judged = x.retval != 1 || finite || !own.fitted || rejected; if (rejected) c.hit("judged:selected-near-unit-root");
  if (!judged) { c.hit("skip:selected-near-unit-root"); return; }
  int N3 = f.N / 3, pm = std::min(f.pm, N3), qm = std::min(f.qm, N3), Pm = sea ? std::min(f.Pm, N3 / f.s) : 0, Qm = sea ? std::min(f.Qm, N3 / f.s) : 0;
  if (sea) { if (Pm > 0) pm = std::min(pm, f.s - 1); if (Qm > 0) qm = std::min(qm, f.s - 1); }
  int maxc = (f.drift && diffs == 1) || (f.mean && diffs == 0); double tol = 0.02;
  struct O { int p, q, P, Q, c; }; std::vector<O> todo;
  int sc = x.idrift || hasmean;
  if (!f.stepwise) {
    for (int p = 0; p <= pm; p++) for (int q = 0; q <= qm; q++) for (int P = 0; P <= Pm; P++) for (int Q = 0; Q <= Qm; Q++) if (p + q + P + Q <= f.omax) for (int k2 = 0; k2 <= maxc; k2++) todo.push_back({p, q, P, Q, k2});
    for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[g.irange(0, (int)i - 1)]);
    size_t lim = c.tier ? 60 : 24; if (todo.size() > lim) todo.resize(lim);
  } else {
    todo.push_back({std::min(f.p0, pm), std::min(f.q0, qm), std::min(f.P0, Pm), std::min(f.Q0, Qm), maxc}); todo.push_back({0, 0, 0, 0, maxc}); todo.push_back({0, 0, 0, 0, 0});
    if (pm > 0 || Pm > 0) todo.push_back({pm > 0, 0, Pm > 0, 0, maxc}); if (qm > 0 || Qm > 0) todo.push_back({0, qm > 0, 0, Qm > 0, maxc});
    static const int S[16][4] = {{0, 0, -1, 0}, {0, 0, 0, -1}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0, -1, -1}, {0, 0, 1, 1}, {-1, 0, 0, 0}, {0, -1, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {-1, -1, 0, 0}, {1, 1, 0, 0}, {0, 0, -1, 1}, {0, 0, 1, -1}, {-1, 1, 0, 0}, {1, -1, 0, 0}};
    if (x.p + x.q + x.P + x.Q + sc > 0 || maxc == 0) for (int i = 0; i < 16; i++) { O o{x.p + S[i][0], x.q + S[i][1], x.P + S[i][2], x.Q + S[i][3], sc}; if (o.p >= 0 && o.q >= 0 && o.P >= 0 && o.Q >= 0 && o.p <= pm && o.q <= qm && o.P <= Pm && o.Q <= Qm) todo.push_back(o); }
    if (maxc && (x.p + x.q + x.P + x.Q + sc > 0)) todo.push_back({x.p, x.q, x.P, x.Q, 1 - sc});
  }
  int judgedn = 0;
  for (auto &o : todo) {
    Cand k2 = cand(spec(f, o.p, x.d, o.q, o.P, x.D, o.Q, o.c)); if (!k2.admissible) continue; int kk = o.p + o.q + o.P + o.Q + f.r + o.c + 2; if (x.Nused - kk - 1 < 1) continue; judgedn++;
    if (!c.ok(have <= k2.icv(f.ic) + tol, f.stepwise ? "search:stepwise-neighbour" : "search:exhaustive", "%s selected (%d,%d,%d)(%d,%d,%d) constant %d with %s %.8g (ret %d), but (%d,%d)(%d,%d) constant %d has %.8g", d, x.p, x.d, x.q, x.P, x.D, x.Q, sc, ICN[f.ic], have, x.retval, o.p, o.q, o.P, o.Q, o.c, k2.icv(f.ic))) break;
  }
  if (judgedn) { c.hit(f.stepwise ? "judged:stepwise" : "judged:exhaustive"); }
  if (x.retval == 1 && own.admissible) c.close("search:own-criterion", x.icv(f.ic), own.icv(f.ic), 1e-6, 1, d);
  // the other search over the same candidates
  if (!f.stepwise && pm + qm + Pm + Qm <= f.omax && own.admissible && x.retval == 1) {
    Cfg h = f; h.stepwise = 1; Run b(h); b.exec(); Res z = b.get();
    if (z.retval == 1 && z.aic < 1e300) { Cand zc = cand(spec(h, z.p, z.d, z.q, z.P, z.D, z.Q, z.M > f.r)); if (zc.admissible) { c.hit("judged:both"); c.ok(have <= z.icv(f.ic) + tol, "search:stepwise-beats-exhaustive", "%s exhaustive (%d,%d)(%d,%d) %.8g, stepwise (%d,%d)(%d,%d) %.8g", d, x.p, x.q, x.P, x.Q, have, z.p, z.q, z.P, z.Q, z.icv(f.ic)); } }
  }
  if (g.chance(0.2)) {   // the object can be used again
    a.exec(); Res z = a.get(); c.ok(z.p == x.p && z.d == x.d && z.q == x.q && z.P == x.P && z.D == x.D && z.Q == x.Q && z.idrift == x.idrift && z.M == x.M, "again", "%s second run selects (%d,%d,%d)(%d,%d,%d) drift %d", d, z.p, z.d, z.q, z.P, z.D, z.Q, z.idrift);
  }
  if (c.idx % 97 == 3) c.sample("%s -> (%d,%d,%d)(%d,%d,%d) drift %d, %d candidates refitted", d, x.p, x.d, x.q, x.P, x.D, x.Q, x.idrift, judgedn);
}
