// C21: discrete, stationary, maximal-overlap and packet wavelet transforms against their definitions.
#include "vf.h"
#include "gen.h"
extern "C" {
#include "ctsa.h"
#include "wavelib.h"
}
const char *vf_driver_name = "c21_wavelet";
namespace {
const char *BI[] = {"1.1", "1.3", "1.5", "2.2", "2.4", "2.6", "2.8", "3.1", "3.3", "3.5", "3.7", "3.9", "4.4", "5.5", "6.8"};
struct Name { char s[20]; bool orth; double tol; int vm; };
Name name(vf::Rng &r, bool orth, bool shortish) {
  Name w; w.orth = true; w.tol = 1e-10; int k = r.irange(0, orth ? 3 : 6);
  if (k == 0) { int o = shortish ? r.irange(1, 8) : r.irange(1, 38); snprintf(w.s, 20, "db%d", o); w.vm = o; } else if (k == 1) { int o = shortish ? r.irange(2, 8) : r.irange(2, 20); snprintf(w.s, 20, "sym%d", o); w.vm = o; } else if (k == 2) { int o = shortish ? r.irange(1, 3) : r.irange(1, 17); snprintf(w.s, 20, "coif%d", o); w.vm = 2 * o; }
  else if (k == 3) { snprintf(w.s, 20, "haar"); w.vm = 1; } else if (k == 6 && r.chance(0.3)) { snprintf(w.s, 20, "meyer"); w.tol = 2e-5; w.vm = 0; } else { snprintf(w.s, 20, "%sbior%s", k == 4 ? "r" : "", BI[r.irange(0, 14)]); w.orth = false; w.vm = 1; }
  return w;
}
Vec signal(vf::Rng &r, int n) { Vec x(n); int k = r.irange(0, 5); double sc = std::pow(10.0, r.range(-3, 3)); for (int i = 0; i < n; i++) x[i] = k == 0 ? r.norm() : k == 1 ? r.range(0, 1) : k == 2 ? (i == n / 3) : k == 3 ? i + 1 : k == 4 ? std::sin(0.3 * i) + 0.1 * r.norm() : 1.0; for (auto &v : x) v *= sc; return x; }
int level_max(int n) { return (int)log((double)n); }
int plen(vf::Rng &r, int tier) { return r.chance(0.25) ? r.irange(3, 24) : r.chance(0.15) ? r.irange(200, tier ? 2500 : 900) : r.irange(8, 250); }
// one analysis step by definition
LVec step(const LVec &x, const double *h, int L, bool per) { int N = x.size(), n2 = per ? (N + 1) / 2 : (N + L - 1) / 2; LVec o(n2, 0); for (int i = 0; i < n2; i++) for (int l = 0; l < L; l++) { int t = per ? 2 * i + L / 2 - l : 2 * i + 1 - l; if (per) { int P = N + N % 2; t = ((t % P) + P) % P; if (t >= N) t = N - 1; } else { int P = 2 * N; t = ((t % P) + P) % P; if (t >= N) t = P - 1 - t; } o[i] += (LD)h[l] * x[t]; } return o; }
LVec circ(const LVec &x, const double *h, int L, int M, int off, LD sc) { int N = x.size(); LVec o(N, 0); for (int i = 0; i < N; i++) for (int l = 0; l < L; l++) { long t = (long)i + off - (long)M * l; t = ((t % N) + N) % N; o[i] += (LD)h[l] * sc * x[t]; } return o; }
LD amax(const LVec &v) { LD m = 0; for (LD a : v) m = fmaxl(m, fabsl(a)); return m; }
LD l1(const double *h, int n) { LD s = 0; for (int i = 0; i < n; i++) s += fabsl((LD)h[i]); return s; }
LVec lv(const Vec &x) { return LVec(x.begin(), x.end()); }
LD gain(wave_object w, int J) { LD g = fmaxl(l1(w->lpd, w->filtlength), l1(w->hpd, w->filtlength)) * fmaxl(l1(w->lpr, w->filtlength), l1(w->hpr, w->filtlength)); return powl(fmaxl(g, 2), J); }
bool cmpv(vf::Ctx &c, const char *key, const double *g, const LVec &w, LD tol, const char *d) { c.outv(g, w.size()); for (size_t i = 0; i < w.size(); i++) if (!c.ok(fabsl(g[i] - w[i]) <= tol, key, "%s at %d of %d got %.15g want %.15Lg (tolerance %.2Lg)", d, (int)i, (int)w.size(), g[i], w[i], tol)) return false; return true; }
bool recon(vf::Ctx &c, const char *key, const double *g, const Vec &x, LD tol, const char *d) { c.outv(g, x.size()); for (size_t i = 0; i < x.size(); i++) if (!c.ok(fabsl((LD)g[i] - x[i]) <= tol, key, "%s at %d of %d got %.15g want %.15g (tolerance %.2Lg)", d, (int)i, (int)x.size(), g[i], x[i], tol)) return false; return true; }
void mras(vf::Ctx &c, const char *key, double *m, int N, int J, const Vec &x, LD tol, const char *d) { c.outv(m, N * (J + 1)); for (int i = 0; i < N; i++) { LD s = 0; for (int j = 0; j <= J; j++) s += m[j * N + i]; if (!c.ok(fabsl(s - x[i]) <= tol, key, "%s components sum to %.15Lg at %d, signal %.15g (tolerance %.2Lg)", d, s, i, x[i], tol)) break; } vf_lib_free(m); }
struct Tag { char b[64]; const char *operator()(const char *p, const char *e, const char *m) { snprintf(b, sizeof b, "%s:%s:%s", p, e, m); return b; } };
}
static void do_filters(vf::Ctx &c) {
  Name nm = name(c.rng, false, false); c.mix(nm.vm); for (char *p = nm.s; *p; p++) c.mix(*p); c.hit("filters"); wave_object w = wave_init(nm.s); int L = w->filtlength; const double *h0 = w->lpd, *h1 = w->hpd, *f0 = w->lpr, *f1 = w->hpr; c.outv(h0, L); c.outv(h1, L); c.outv(f0, L); c.outv(f1, L);
  c.ok(w->lpd_len == L && w->hpd_len == L && w->lpr_len == L && w->hpr_len == L, "filters:length", "%s lengths %d %d %d %d, filter length %d", nm.s, w->lpd_len, w->hpd_len, w->lpr_len, w->hpr_len, L); if (nm.s[0] == 'd') c.ok(L == 2 * nm.vm, "filters:length", "%s length %d", nm.s, L); if (nm.s[0] == 'c') c.ok(L == 3 * nm.vm, "filters:length", "%s length %d", nm.s, L); if (nm.s[0] == 's') c.ok(L == 2 * nm.vm, "filters:length", "%s length %d", nm.s, L);
  LD tol = nm.tol; for (int m = 0; m < 2 * L - 1; m++) { LD s = 0, a = 0; for (int i = 0; i < L; i++) { int j = m - i; if (j < 0 || j >= L) continue; LD v = (LD)h0[i] * f0[j] + (LD)h1[i] * f1[j]; s += v; a += i % 2 ? -v : v; } if (!c.ok(fabsl(s - (m == L - 1 ? 2 : 0)) <= tol, "filters:perfect-reconstruction", "%s lag %d sum %.15Lg", nm.s, m, s)) break; if (!c.ok(fabsl(a) <= tol, "filters:aliasing", "%s lag %d sum %.15Lg", nm.s, m, a)) break; }
  LD s0 = 0, s1 = 0, r0 = 0; for (int i = 0; i < L; i++) { s0 += h0[i]; r0 += f0[i]; s1 += h1[i]; } c.ok(fabsl(s0 - sqrtl(2)) <= tol && fabsl(r0 - sqrtl(2)) <= tol, "filters:sum", "%s low-pass sums %.15Lg %.15Lg", nm.s, s0, r0);
  if (nm.orth) { for (int i = 0; i < L; i++) if (!c.ok(fabsl((LD)h0[i] - f0[L - 1 - i]) <= 1e-15L && fabsl((LD)h1[i] - f1[L - 1 - i]) <= 1e-15L, "filters:orthogonal", "%s reconstruction filters are not the reversed decomposition filters at %d", nm.s, i)) break; for (int m = 0; m < L; m += 2) { LD a = 0, b = 0, d = 0; for (int i = 0; i + m < L; i++) { a += (LD)h0[i] * h0[i + m]; b += (LD)h1[i] * h1[i + m]; d += (LD)h0[i] * h1[i + m]; } if (!c.ok(fabsl(a - (m == 0)) <= tol && fabsl(b - (m == 0)) <= tol && fabsl(d) <= tol, "filters:orthogonal", "%s shift %d products %.12Lg %.12Lg %.12Lg", nm.s, m, a, b, d)) break; } }
  for (int m = 0; m < nm.vm; m++) { LD q = 0; for (int i = 0; i < L; i++) q += (LD)h1[i] * powl((i - (L - 1) / 2.0L) / L, m); if (!c.ok(fabsl(q) <= 1e-9L, "filters:moments", "%s moment %d of the high-pass filter is %.3Lg", nm.s, m, q)) break; }
  if (c.idx % 53 == 0) c.sample("%s length %d low-pass sum %.12Lg", nm.s, L, s0); wave_free(w);
}
static void do_dwt(vf::Ctx &c) {
  vf::Rng &r = c.rng; Name nm = name(r, false, r.chance(0.6)); int N = plen(r, c.tier), J = r.irange(1, level_max(N)); wave_object w = wave_init(nm.s); int L = w->filtlength; wt_object t = wt_init(w, r.chance(0.1) ? NULL : r.chance(0.5) ? "dwt" : "DWT", N, J); Tag tg;
  for (int rep = 0; rep < 2; rep++) { Vec x = signal(r, N), y; c.mixv(x); c.mix(N * 100 + J); c.mix(L); bool per = r.chance(0.5), fft = r.chance(0.4); const char *e = per ? "per" : "sym", *m = fft ? "fft" : "direct"; setDWTExtension(t, e); setWTConv(t, fft && r.chance(0.3) ? "FFT" : m); In xi(x, "signal"); char d[100]; snprintf(d, sizeof d, "%s N=%d J=%d %s %s rep %d", nm.s, N, J, e, m, rep);
    if (L > N) c.hit("dwt:filter-longer-than-signal"); c.hit(tg("dwt", e, m)); dwt(t, xi); LVec a = lv(x); LD ax = amax(a), g = gain(w, J); int sum = t->length[0]; std::vector<LVec> D; for (int j = 0; j < J; j++) { LVec n = step(a, w->lpd, L, per); D.push_back(step(a, w->hpd, L, per)); a = n; }
    if (!c.ok(t->length[0] == (int)a.size() && t->length[J + 1] == N, "dwt:lengths", "%s approximation length %d, want %d", d, t->length[0], (int)a.size())) break; bool okl = true; for (int j = 1; j <= J; j++) { sum += t->length[j]; okl = okl && c.ok(t->length[j] == (int)D[J - j].size(), "dwt:lengths", "%s detail %d length %d, want %d", d, j, t->length[j], (int)D[J - j].size()); } if (!okl) break; c.ok(sum == t->outlength, "dwt:lengths", "%s lengths add to %d, output length %d", d, sum, t->outlength);
    LD tol = 1e-13L * ax * powl(fmaxl(l1(w->lpd, L), l1(w->hpd, L)), J) * (fft ? 8 + L * 0.2L + N * 0.02L : 1) + 1e-300L; int pos = t->length[0]; cmpv(c, tg("dwt:approximation", e, m), t->output, a, tol, d); for (int j = 1; j <= J; j++) { cmpv(c, tg("dwt:detail", e, m), t->output + pos, D[J - j], tol, d); pos += t->length[j]; }
    LD rt = (nm.tol * 0.3L * J + 1e-12L + (fft ? 1e-14L * (L + N) : 0)) * g * ax; if (nm.tol < 1e-9) rt = (1e-10L * J + (fft ? 1e-14L * (L + N) : 0)) * ax * powl(1.5L, J) + 1e-14L * g * ax; Out o(N, "reconstruction"); idwt(t, o); recon(c, tg("dwt:reconstruction", e, m), o, x, rt, d);
    mras(c, tg("dwt:mra", e, m), getDWTmra(t, t->output), N, J, x, rt, d);
    if (nm.orth && per && nm.tol < 1e-9 && N % (1 << J) == 0) { LD p = 0, q = 0; for (int i = 0; i < N; i++) p += (LD)x[i] * x[i]; for (int i = 0; i < t->outlength; i++) q += (LD)t->output[i] * t->output[i]; c.hit("dwt:energy"); c.ok(fabsl(p - q) <= 1e-9L * J * p + 1e-300L, "dwt:energy", "%s energy of coefficients %.15Lg, of the signal %.15Lg", d, q, p); }
    if (c.idx % 211 == 0) c.sample("%s first coefficient %.10g want %.10Lg", d, t->output[0], a[0]);
  }
  wt_free(t); wave_free(w);
}
static void do_swt(vf::Ctx &c) {
  vf::Rng &r = c.rng; Name nm = name(r, false, r.chance(0.6)); int J = r.irange(1, 5), B = 1 << J, N = B * r.irange(1, std::max(1, 500 / B)); if (level_max(N) < J) N = B * ((int)(exp(J) / B) + 1); wave_object w = wave_init(nm.s); int L = w->filtlength; wt_object t = wt_init(w, "swt", N, J); Tag tg;
  for (int rep = 0; rep < 2; rep++) { Vec x = signal(r, N); c.mixv(x); c.mix(N * 100 + J); c.mix(L); bool fft = r.chance(0.5); const char *m = fft ? "fft" : "direct"; setWTConv(t, m); In xi(x, "signal"); char d[100]; snprintf(d, sizeof d, "%s N=%d J=%d %s rep %d", nm.s, N, J, m, rep); if (L << (J - 1) > N) c.hit("swt:filter-longer-than-signal"); c.hit(tg("swt", "per", m)); swt(t, xi);
    LVec a = lv(x); LD ax = amax(a), g = gain(w, J); std::vector<LVec> D; for (int j = 0; j < J; j++) { int M = 1 << j; D.push_back(circ(a, w->hpd, L, M, M * L / 2, 1)); a = circ(a, w->lpd, L, M, M * L / 2, 1); }
    c.ok(t->outlength == N * (J + 1) && t->length[J + 1] == t->outlength, "swt:lengths", "%s output length %d", d, t->outlength); for (int j = 0; j <= J; j++) c.ok(t->length[j] == N, "swt:lengths", "%s length %d is %d", d, j, t->length[j]);
    LD tol = 1e-13L * ax * powl(fmaxl(l1(w->lpd, L), l1(w->hpd, L)), J) * (fft ? 8 + 0.02L * (N + (L << J)) : 1) + 1e-300L; cmpv(c, tg("swt:approximation", "per", m), t->output, a, tol, d); for (int j = 1; j <= J; j++) cmpv(c, tg("swt:detail", "per", m), t->output + N * j, D[J - j], tol, d);
    LD rt = nm.tol < 1e-9 ? (1e-10L * J + (fft ? 1e-14L * (N + (L << J)) : 0)) * ax * powl(1.5L, J) + 1e-14L * g * ax : 1e-5L * g * ax; Out o(N, "reconstruction"); iswt(t, o); recon(c, tg("swt:reconstruction", "per", m), o, x, rt, d); mras(c, tg("swt:mra", "per", m), getSWTmra(t, t->output), N, J, x, rt, d);
    if (c.idx % 211 == 0) c.sample("%s first coefficient %.10g want %.10Lg", d, t->output[0], a[0]); }
  wt_free(t); wave_free(w);
}
static void do_modwt(vf::Ctx &c) {
  vf::Rng &r = c.rng; Name nm = name(r, true, r.chance(0.6)); int N = plen(r, 0), J = r.irange(1, level_max(N)); wave_object w = wave_init(nm.s); int L = w->filtlength; wt_object t = wt_init(w, r.chance(0.5) ? "modwt" : "MODWT", N, J); Tag tg;
  for (int rep = 0; rep < 2; rep++) { Vec x = signal(r, N); c.mixv(x); c.mix(N * 100 + J); c.mix(L); bool fft = r.chance(0.6), sym = fft && r.chance(0.4); const char *m = fft ? "fft" : "direct", *e = sym ? "sym" : "per"; setWTConv(t, m); setDWTExtension(t, e); In xi(x, "signal"); char d[100]; snprintf(d, sizeof d, "%s N=%d J=%d %s %s rep %d", nm.s, N, J, e, m, rep); if (L > N) c.hit("modwt:filter-longer-than-signal"); c.hit(tg("modwt", e, m)); modwt(t, xi);
    LVec a = lv(x); if (sym) for (int i = N - 1; i >= 0; i--) a.push_back(x[i]); int P = a.size(); LD ax = amax(a), en = 0; for (LD v : a) en += v * v; std::vector<LVec> D; LD q = 1 / sqrtl(2); for (int j = 0; j < J; j++) { D.push_back(circ(a, w->hpd, L, 1 << j, 0, q)); a = circ(a, w->lpd, L, 1 << j, 0, q); }
    c.ok(t->outlength == P * (J + 1) && t->modwtsiglength == P, "modwt:lengths", "%s output length %d signal %d", d, t->outlength, t->modwtsiglength); for (int j = 0; j <= J; j++) c.ok(t->length[j] == P, "modwt:lengths", "%s length %d is %d", d, j, t->length[j]);
    LD tol = 1e-13L * ax * (fft ? 4 + 0.1L * P : 4 * J) + 1e-300L; cmpv(c, tg("modwt:approximation", e, m), t->output, a, tol, d); for (int j = 1; j <= J; j++) cmpv(c, tg("modwt:detail", e, m), t->output + P * j, D[J - j], tol, d);
    LD s = 0; for (int i = 0; i < t->outlength; i++) s += (LD)t->output[i] * t->output[i]; c.ok(fabsl(s - en) <= 1e-9L * J * en + 1e-300L, "modwt:energy", "%s energy of coefficients %.15Lg, of the signal %.15Lg", d, s, en);
    LD rt = 1e-9L * J * ax + 1e-300L; Out o(N, "reconstruction"); imodwt(t, o); recon(c, tg("modwt:reconstruction", e, m), o, x, rt, d); mras(c, tg("modwt:mra", e, m), getMODWTmra(t, t->output), N, J, x, rt, d);
    if (c.idx % 211 == 0) c.sample("%s first coefficient %.10g want %.10Lg", d, t->output[0], a[0]); }
  wt_free(t); wave_free(w);
}
static LD cost(const LVec &v, int kind, LD p) { LD s = 0; for (LD x : v) { LD x2 = x * x; if (kind == 0) { if (x2 != 0) s -= x2 * logl(x2); } else if (kind == 1) s += fabsl(x) > p; else if (kind == 2) s += powl(fabsl(x), p); else if (x2 != 0) s += logl(x2); } return s; }
static void do_tree(vf::Ctx &c) {
  vf::Rng &r = c.rng; Name nm = name(r, false, r.chance(0.6)); int N = r.chance(0.3) ? r.irange(3, 24) : r.irange(8, 200), J = r.irange(1, level_max(N)); bool per = r.chance(0.5), pack = r.chance(0.6); const char *e = per ? "per" : "sym"; wave_object w = wave_init(nm.s); int L = w->filtlength; Tag tg; char d[100];
  if (!pack) { wtree_object t = wtree_init(w, N, J); for (int rep = 0; rep < 2; rep++) { Vec x = signal(r, N); c.mixv(x); c.mix(N * 100 + J); c.mix(L); if (rep) per = r.chance(0.5); e = per ? "per" : "sym"; setWTREEExtension(t, e); In xi(x, "signal"); snprintf(d, sizeof d, "wtree %s N=%d J=%d %s rep %d", nm.s, N, J, e, rep); c.hit(tg("wtree", e, "direct")); if (L > N) c.hit("wtree:filter-longer-than-signal"); wtree(t, xi); std::vector<LVec> lev{lv(x)}; LD ax = amax(lev[0]); int tot = 0;
      for (int j = 1; j <= J; j++) { std::vector<LVec> nx; for (auto &n : lev) { nx.push_back(step(n, w->lpd, L, per)); nx.push_back(step(n, w->hpd, L, per)); } lev = nx; int nl = getWTREENodelength(t, j); if (!c.ok(nl == (int)lev[0].size() && t->coeflength[j] == nl, "wtree:lengths", "%s level %d length %d, want %d", d, j, nl, (int)lev[0].size())) { wtree_free(t); wave_free(w); return; } tot += nl * lev.size(); LD tol = 1e-13L * ax * powl(fmaxl(l1(w->lpd, L), l1(w->hpd, L)), j) + 1e-300L;
        for (size_t k = 0; k < lev.size(); k++) { if (lev.size() > 16 && r.chance(0.5)) continue; Out o(nl, "node"); getWTREECoeffs(t, j, k, o, nl); if (!cmpv(c, tg("wtree:node", e, "direct"), o, lev[k], tol, d)) break; } }
      c.ok(tot == t->outlength, "wtree:lengths", "%s nodes hold %d coefficients, output length %d", d, tot, t->outlength); } wtree_free(t); wave_free(w); return; }
  wpt_object t = wpt_init(w, N, J); for (int rep = 0; rep < 2; rep++) { Vec x = signal(r, N); c.mixv(x); c.mix(N * 100 + J); c.mix(L); if (rep) per = r.chance(0.5); e = per ? "per" : "sym"; setDWPTExtension(t, e); int kind = r.irange(0, 3); LD p = kind == 1 ? r.range(0, 1) : kind == 2 ? r.range(1, 3) : 0; double mx = 0; for (double v : x) mx = std::max(mx, fabs(v)); if (kind == 1) p *= mx; static const char *K[] = {"shannon", "threshold", "norm", "logenergy"}; setDWPTEntropy(t, K[kind], (double)p); p = (double)p; In xi(x, "signal"); snprintf(d, sizeof d, "dwpt %s N=%d J=%d %s %s rep %d", nm.s, N, J, e, K[kind], rep); c.hit(tg("dwpt", e, K[kind])); if (L > N) c.hit("dwpt:filter-longer-than-signal"); dwpt(t, xi);
    std::vector<std::vector<LVec>> T{{lv(x)}}; LD ax = amax(T[0][0]); for (int j = 1; j <= J; j++) { std::vector<LVec> nx; for (auto &n : T.back()) { nx.push_back(step(n, w->lpd, L, per)); nx.push_back(step(n, w->hpd, L, per)); } T.push_back(nx); }
    // best basis by own recursion; threshold counts and log energies jump at rounding-level coefficients, so the chosen basis is only judged by cost when it is stable
    std::vector<std::vector<LD>> C(J + 1); LD mag = 0; bool stable = true; LD eps = 1e-12L * ax * powl(fmaxl(l1(w->lpd, L), l1(w->hpd, L)), J); for (int j = 0; j <= J; j++) for (auto &n : T[j]) { C[j].push_back(cost(n, kind, p)); mag += fabsl(C[j].back()); for (LD v : n) { if (kind == 1 && fabsl(fabsl(v) - p) < eps) stable = false; if (kind == 3 && fabsl(v) < 1e4L * eps) stable = false; } } std::vector<std::vector<LD>> Bst = C; for (int j = J - 1; j >= 0; j--) for (size_t k = 0; k < T[j].size(); k++) Bst[j][k] = fminl(C[j][k], Bst[j + 1][2 * k] + Bst[j + 1][2 * k + 1]);
    LD sel = 0; int tot = 0; bool good = true; std::vector<int> cover(1 << J, 0); LD tol = 1e-13L * ax * powl(fmaxl(l1(w->lpd, L), l1(w->hpd, L)), J) + 1e-300L;
    for (int k = 0; k < t->nodes; k++) { int X = t->nodeindex[2 * k], Y = t->nodeindex[2 * k + 1]; if (!c.ok(X >= 0 && X <= J && Y >= 0 && Y < (1 << X), "dwpt:nodes", "%s node %d is (%d,%d)", d, k, X, Y)) { good = false; break; } for (int q = Y << (J - X); q < (Y + 1) << (J - X); q++) cover[q]++; sel += C[X][Y]; int nl = X ? getDWPTNodelength(t, X) : N; if (!c.ok(nl == (int)T[X][Y].size(), "dwpt:lengths", "%s node length %d want %d", d, nl, (int)T[X][Y].size())) { good = false; break; } tot += nl; Out o(nl, "node"); if (X) getDWPTCoeffs(t, X, Y, o, nl); else for (int i = 0; i < N; i++) o[i] = t->output[i]; cmpv(c, tg("dwpt:node", e, "direct"), o, T[X][Y], tol, d); }
    if (good) { for (int v : cover) if (!c.ok(v == 1, "dwpt:nodes", "%s the basis covers a band %d times", d, v)) break; c.ok(tot == t->outlength, "dwpt:lengths", "%s nodes hold %d coefficients, output length %d", d, tot, t->outlength); if (stable) { c.hit("dwpt:best"); LD ct = 1e-9L * (mag + 1e-300L) + (kind == 2 ? 0 : kind == 0 ? 1e-9L * ax * ax * N : 0); c.ok(sel <= Bst[0][0] + ct, "dwpt:best-basis", "%s cost of the basis %.12Lg, best %.12Lg", d, sel, Bst[0][0]); } }
    LD g = gain(w, J), rt = nm.tol < 1e-9 ? 1e-10L * J * ax * powl(1.5L, J) + 1e-14L * g * ax : 1e-5L * g * ax; Out o(N, "reconstruction"); idwpt(t, o); recon(c, tg("dwpt:reconstruction", e, "direct"), o, x, rt, d); if (c.idx % 211 == 0) c.sample("%s %d nodes cost %.8Lg best %.8Lg", d, t->nodes, sel, Bst[0][0]); if (!good) break; }
  wpt_free(t); wave_free(w);
}
void run_case(vf::Ctx &c) { c.nontrivial(); int k = c.rng.irange(0, 9); if (k < 1) do_filters(c); else if (k < 4) do_dwt(c); else if (k < 6) do_swt(c); else if (k < 8) do_modwt(c); else do_tree(c); }
