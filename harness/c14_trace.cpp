// C14 (trace): the log of candidate models printed by a verbose search, checked against the result and against direct fits.
#include "aa.h"
#include <set>
#include <tuple>
const char *vf_driver_name = "c14_trace";
using namespace aa;
namespace {
struct Line { int p, d, q, P, D, Q, c; double ic; };
struct Cap { char *b = nullptr; size_t n = 0; ~Cap() { free(b); } };
}
void run_case(vf::Ctx &c) {
  Cfg f = random_cfg(c, c.rng.chance(0.4)); vf::Rng &g = c.rng; char d[400]; f.describe(d, sizeof d); c.mix(f.hash()); c.mixv(f.y);
  Run a(f); a.exec(); Res x = a.get(); aa::observe(c, x);
  Cap t; Run b(f); auto_arima_setVerbose(b.a, 1); { fflush(stdout); FILE *old = stdout, *m = open_memstream(&t.b, &t.n); stdout = m; b.exec(); fflush(m); stdout = old; fclose(m); } Res z = b.get(); c.nontrivial();
  bool eq = x.retval == z.retval && x.p == z.p && x.d == z.d && x.q == z.q && x.P == z.P && x.D == z.D && x.Q == z.Q && x.idrift == z.idrift && x.M == z.M && (x.retval == 0 || (x.phi == z.phi && x.theta == z.theta && x.PHI == z.PHI && x.THETA == z.THETA && x.exog == z.exog && memcmp(&x.loglik, &z.loglik, 8) == 0 && memcmp(&x.aic, &z.aic, 8) == 0));
  c.ok(eq, "verbose", "%s selected (%d,%d,%d)(%d,%d,%d) silently and (%d,%d,%d)(%d,%d,%d) verbosely", d, x.p, x.d, x.q, x.P, x.D, x.Q, z.p, z.d, z.q, z.P, z.D, z.Q);
  if (f.flat || x.retval == 0) { c.hit("flat"); return; }
  std::vector<Line> L; for (char *s = t.b; s && *s; ) { char *e = strchr(s, '\n'); if (e) *e = 0; Line l; const char *q = strstr(s, "p: "); if (q && sscanf(q, "p: %d d: %d q: %d P: %d D: %d Q: %d Drift/Mean: %d ic: %lf", &l.p, &l.d, &l.q, &l.P, &l.D, &l.Q, &l.c, &l.ic) == 8) L.push_back(l); if (!e) break; s = e + 1; }
  if (L.empty()) { c.hit("no-trace"); return; } c.hit(f.stepwise ? f.approx ? "stepwise:approx" : "stepwise" : f.approx ? "exhaustive:approx" : "exhaustive");
  bool sea = f.seasonal && f.s > 1; int diffs = x.d + x.D, hasmean = x.M - f.r - x.idrift, sc = x.idrift || hasmean, maxc = (f.drift && diffs == 1) || (f.mean && diffs == 0);
  const Line *best = nullptr, *own = nullptr; std::set<std::tuple<int, int, int, int, int>> seen;
  for (auto &l : L) {
    if (!c.ok(l.p >= 0 && l.q >= 0 && l.P >= 0 && l.Q >= 0 && l.p <= f.pm && l.q <= f.qm && l.P <= f.Pm && l.Q <= f.Qm && l.d == x.d && l.D == x.D && (l.c == 0 || (l.c == 1 && maxc)) && (sea || l.P + l.Q + l.D == 0) && (f.stepwise || l.p + l.q + l.P + l.Q <= f.omax), "trace:limit", "%s considered (%d,%d,%d)(%d,%d,%d) constant %d", d, l.p, l.d, l.q, l.P, l.D, l.Q, l.c)) return;
    if (!best || l.ic < best->ic) best = &l; if (l.p == x.p && l.q == x.q && l.P == x.P && l.Q == x.Q && l.c == sc) own = &l; seen.insert(std::make_tuple(l.p, l.q, l.P, l.Q, l.c)); }
  c.mix(seen.size()); char h[40]; snprintf(h, sizeof h, "considered:%s", seen.size() < 6 ? "1-5" : seen.size() < 16 ? "6-15" : seen.size() < 40 ? "16-39" : "40+"); c.hit(h);
  if (f.approx || x.retval != 1) { c.hit("trace:limits-only"); return; }
  auto T = [](double v) { return 2e-5 * (std::fabs(v) + 1); };
  if (x.aic < 1e300) {
    if (!c.ok(own != nullptr, "trace:selected", "%s selected (%d,%d,%d)(%d,%d,%d) constant %d, which the search never considered", d, x.p, x.d, x.q, x.P, x.D, x.Q, sc)) return;
    c.ok(own->ic <= best->ic + T(best->ic), "trace:best", "%s selected (%d,%d)(%d,%d) constant %d with criterion %g, but considered (%d,%d)(%d,%d) constant %d with %g", d, x.p, x.q, x.P, x.Q, sc, own->ic, best->p, best->q, best->P, best->Q, best->c, best->ic);
    c.ok(std::fabs(own->ic - x.icv(f.ic)) <= T(own->ic), "trace:reported", "%s criterion reported %.8g, used in the search %g", d, x.icv(f.ic), own->ic); }
  // every limit of the search is reached
  int N3 = f.N / 3, pm = std::min(f.pm, N3), qm = std::min(f.qm, N3), Pm = sea ? std::min(f.Pm, N3 / f.s) : 0, Qm = sea ? std::min(f.Qm, N3 / f.s) : 0; if (sea) { if (Pm > 0) pm = std::min(pm, f.s - 1); if (Qm > 0) qm = std::min(qm, f.s - 1); }
  if (!f.stepwise) { for (int p = 0; p <= pm; p++) for (int q = 0; q <= qm; q++) for (int P = 0; P <= Pm; P++) for (int Q = 0; Q <= Qm; Q++) if (p + q + P + Q <= f.omax) for (int k = 0; k <= maxc; k++) if (!c.ok(seen.count(std::make_tuple(p, q, P, Q, k)), "trace:complete", "%s never considered (%d,%d)(%d,%d) constant %d", d, p, q, P, Q, k)) return; }
  // the criteria the search used are those of direct fits
  int judged = 0; for (int i = 0; i < 5; i++) { const Line &l = L[g.irange(0, (int)L.size() - 1)]; int kk = l.p + l.q + l.P + l.Q + f.r + l.c + 2; if (x.Nused - kk - 1 < 1) continue;
    Cand k = cand(spec(f, l.p, x.d, l.q, l.P, x.D, l.Q, l.c)); double w = k.icv(f.ic); judged++;
    if (l.ic > 1e300) { if (k.admissible && k.fitted) c.ok(false, "trace:rejected", "%s considered (%d,%d,%d)(%d,%d,%d) constant %d unusable, a direct fit has %s %.8g", d, l.p, l.d, l.q, l.P, l.D, l.Q, l.c, ICN[f.ic], w); else c.hit("candidate:rejected"); }
    else { c.hit("candidate:finite"); if (c.ok(k.fitted, "trace:fitted", "%s gave (%d,%d,%d)(%d,%d,%d) constant %d the criterion %g, a direct fit fails", d, l.p, l.d, l.q, l.P, l.D, l.Q, l.c, l.ic)) c.ok(std::fabs(l.ic - w) <= T(w), "trace:criterion", "%s gave (%d,%d,%d)(%d,%d,%d) constant %d the %s %g, a direct fit has %.8g", d, l.p, l.d, l.q, l.P, l.D, l.Q, l.c, ICN[f.ic], l.ic, w);
      if (l.p + l.P > 0) c.ok(inside(k.m.fphi(), 1.0L), "trace:stationary", "%s accepted (%d,%d,%d)(%d,%d,%d) constant %d with a root inside the unit circle", d, l.p, l.d, l.q, l.P, l.D, l.Q, l.c); } }
  if (c.idx % 97 == 3) c.sample("%s -> (%d,%d,%d)(%d,%d,%d) constant %d; %d models in the log, %d refitted", d, x.p, x.d, x.q, x.P, x.D, x.Q, sc, (int)seen.size(), judged);
}
