// C28: differencing, polynomial algebra, psi/pi weights, ARMA autocovariances, parameter transformations.
#include "vf.h"
#include "gen.h"
#include "arma.h"
extern "C" {
#include "ctsa.h"
#include "talg.h"
}
const char *vf_driver_name = "c28_algebra";
static LVec mul(const LVec &a, const LVec &b) { LVec c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j]; return c; }
static void cmp(vf::Ctx &c, const char *key, const double *g, const LVec &w, LD rel, LD sc, const char *d) { c.outv(g, w.size()); for (size_t i = 0; i < w.size(); i++) if (!c.ok(fabsl(g[i] - w[i]) <= rel * std::max(sc, fabsl(w[i])), key, "%s at %zu got %.15g want %.15Lg", d, i, g[i], w[i])) return; }
static LVec lv(const Vec &v) { return LVec(v.begin(), v.end()); }
// stationary coefficients from partial autocorrelations
static LVec frompc(const LVec &pc) { LVec a; for (size_t k = 0; k < pc.size(); k++) { LVec b = a; b.push_back(pc[k]); for (size_t j = 0; j < k; j++) b[j] = a[j] - pc[k] * a[k - 1 - j]; a = b; } return a; }
static void differencing(vf::Ctx &c) {
  vf::Rng &r = c.rng; int N = r.irange(3, 200); Vec x = gen::series(r, N); if (r.chance(0.5)) gen::affine(x, r.range(-100, 100), std::pow(10.0, r.range(-3, 3))); c.mixv(x); LD lev = 0; for (double v : x) lev = std::max(lev, fabsl((LD)v)); char d[80];
  int s = r.chance(0.4) ? 1 : r.irange(2, 12), D = r.irange(0, s == 1 ? 4 : 3); if (D * s >= N) D = 0; c.mix(s * 8 + D); snprintf(d, sizeof d, "N=%d D=%d s=%d", N, D, s); LVec w = lv(x), p{1}, f(s + 1, 0); f[0] = 1; f[s] = -1; for (int k = 0; k < D; k++) { LVec v; for (size_t t = s; t < w.size(); t++) v.push_back(w[t] - w[t - s]); w = v; p = mul(p, f); }
  In xi(x, "series"); LD tol = 1e-14L * ldexpl(lev, D + 1); c.hit(s == 1 ? "diff" : "diffs");
  { Out o(N - D * s, "differenced"); int n = diffs(xi, N, D, s, o); if (c.ok(n == N - D * s, "diffs:length", "%s returned %d", d, n)) { c.outv(o, n); for (int i = 0; i < n; i++) if (!c.ok(fabsl(o[i] - w[i]) <= tol, "diffs", "%s at %d got %.15g want %.15Lg", d, i, o[i], w[i])) break; } }
  { Out o(D * s + 1, "polynomial"); delds(D, s, o); cmp(c, "delds", o, p, 1e-14L, 1, d); }
  if (s == 1) { Out o(N - D, "differenced"); int n = diff(xi, N, D, o); if (c.ok(n == N - D, "diff:length", "%s returned %d", d, n)) { c.outv(o, N - D); for (int i = 0; i < N - D; i++) if (!c.ok(fabsl(o[i] - w[i]) <= tol, "diff", "%s at %d got %.15g want %.15Lg", d, i, o[i], w[i])) break; } Out q(D + 1, "polynomial"); deld(D, q); cmp(c, "deld", q, p, 1e-14L, 1, d); }
  { Out o(N, "cumulative sum"); cumsum(xi, N, o); LVec q(N); LD t = 0, a = 0; for (int i = 0; i < N; i++) { t += x[i]; q[i] = t; a += fabsl((LD)x[i]); } c.outv(o, N); for (int i = 0; i < N; i++) if (!c.ok(fabsl(o[i] - q[i]) <= 1e-14L * N * a, "cumsum", "%s at %d got %.15g want %.15Lg", d, i, o[i], q[i])) break; }
  double mn, mx; arrayminmax(xi, N, &mn, &mx); c.out(mn); c.ok(mn == *std::min_element(x.begin(), x.end()) && mx == *std::max_element(x.begin(), x.end()), "arrayminmax", "%s %g %g", d, mn, mx);
  int l = r.irange(0, std::min(N - 1, 12)); LD want = 0, ab = 0; for (int i = 1; i <= l; i++) { LD t = 0; for (int j = i; j < N; j++) { t += (LD)x[j] * x[j - i]; ab += fabsl((LD)x[j] * x[j - i]); } want += t * (1 - (LD)i / (l + 1)); } want *= 2.0L / N; double s0 = r.norm(), sum = s0; ppsum(xi, N, l, &sum); c.out(sum); c.ok(fabsl(sum - s0 - want) <= 1e-13L * (ab / N * 2 + fabs(s0) + 1e-300L), "ppsum", "%s l=%d got %.15g want %.15Lg", d, l, sum - s0, want);
}
static void polys(vf::Ctx &c) {
  vf::Rng &r = c.rng; int a = r.irange(1, 20), b = r.irange(1, 20); Vec A(a), B(b); for (auto &v : A) v = r.norm(); for (auto &v : B) v = r.norm(); c.mixv(A); c.mixv(B); In ai(A, "polynomial"), bi(B, "polynomial"); char d[60]; snprintf(d, sizeof d, "lengths %d %d", a, b); c.hit("poly");
  { Out o(a + b - 1, "product"); int n = poly(ai, bi, o, a, b); if (c.ok(n == a + b - 1, "poly:length", "%s returned %d", d, n)) cmp(c, "poly", o, mul(lv(A), lv(B)), 1e-13L, 10, d); }
  int M = r.irange(0, 6), n = M ? M * (a - 1) + 1 : a, m = M ? (a - 1) / M + 1 : a; snprintf(d, sizeof d, "length %d by %d", a, M);
  { Out o(n, "upsampled"); int k = upsample(ai, a, M, o); LVec w(n, 0); for (int i = 0; i < a; i++) w[M ? i * M : i] = A[i]; if (c.ok(k == n, "upsample:length", "%s returned %d", d, k)) cmp(c, "upsample", o, w, 0, 0, d); }
  { Out o(m, "downsampled"); int k = downsample(ai, a, M, o); LVec w(m, 0); for (int i = 0; i < m; i++) w[i] = A[M ? i * M : i]; if (c.ok(k == m, "downsample:length", "%s returned %d", d, k)) cmp(c, "downsample", o, w, 0, 0, d); }
  int L = r.irange(2, 40); double lo = r.range(-5, 5), hi = lo + r.range(0.1, 20); Out o(L, "grid"); linspace(o, L, lo, hi); LVec w(L); for (int i = 0; i < L; i++) w[i] = lo + ((LD)hi - lo) * i / (L - 1); cmp(c, "linspace", o, w, 1e-14L, 30, "linspace"); c.ok(o[0] == lo && o[L - 1] == hi, "linspace:ends", "%g %g", o[0], o[L - 1]);
}
static void weights(vf::Ctx &c) {
  vf::Rng &r = c.rng; int p = r.irange(0, 6), q = r.irange(0, 6); Vec ph = gen::statcoef(r, p, 0.8), th = gen::statcoef(r, q, 0.9); for (auto &v : ph) if (r.chance(0.15)) v = 0; c.mixv(ph); c.mixv(th); c.mix(p * 8 + q); char d[60]; int J = r.irange(1, 40); snprintf(d, sizeof d, "p=%d q=%d n=%d", p, q, J); In pi(ph, "phi"), ti(th, "theta"); c.hit("weights");
  LVec psi = ora::psi(lv(ph), lv(th), J - 1); { Out o(J, "psi"); psiweight(pi, ti, o, p, q, J); cmp(c, "psiweight", o, psi, 1e-11L, 1, d); }
  LVec nphi(p), nth(q); for (int i = 0; i < p; i++) nphi[i] = -(LD)ph[i]; for (int i = 0; i < q; i++) nth[i] = -(LD)th[i]; LVec pw = ora::psi(nth, nphi, J - 1); { Out o(J, "pi"); piweight(pi, ti, o, p, q, J); cmp(c, "piweight", o, pw, 1e-11L, 1, d); }
  LD mg = 0; if (!ora::stationary(lv(ph), &mg) || mg < 0.02L) return;  // zeroed coefficients may have left the region
  double var = std::pow(10.0, r.range(-3, 3)); int lag = r.irange(1, 30); LVec g; if (!ora::acov(lv(ph), lv(th), lag, g)) return; LD g0 = g[0]; LD amp = 1e-13L / (mg * mg * mg);
  { Out o(lag, "autocovariance"); arma_autocovar(pi, ti, p, q, var, o, lag); LVec w(g.begin(), g.begin() + lag); for (auto &v : w) v *= var; cmp(c, "arma_autocovar", o, w, 1e-10L + amp, g0 * var, d); }
  int m = std::max(p, q), MA = m + 1 + r.irange(0, 6); Vec mq(q); for (int i = 0; i < q; i++) mq[i] = -th[i]; In mi(mq, "theta"); LVec g2; ora::acov(lv(ph), lv(th), MA, g2); Out acf(MA, "acf"), cv(m + 1, "cvli"), al(std::max(m, 1), "alpha"); int f = twacf(pi, p, mi, q, acf, MA, cv, m + 1, al, m); c.outi(f);
  if (c.ok(f == 0, "twacf:fault", "%s fault %d", d, f)) { cmp(c, "twacf:acf", acf, LVec(g2.begin(), g2.begin() + MA), 1e-10L + amp, g2[0], d); LVec ps = ora::psi(lv(ph), lv(th), q); cmp(c, "twacf:psi", cv, LVec(ps.begin(), ps.begin() + (MA > 1 && m ? q + 1 : 1)), 1e-11L, 1, d); }
  c.ok(twacf(pi, p, mi, q, acf, MA, cv, m + 2, al, m) != 0, "twacf:bad-dimension", "%s accepted a wrong dimension", d);
}
static void trans(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n[4]; int tot = 0; for (int &v : n) { v = r.irange(0, 4); tot += v; } int M = r.irange(0, 3); if (!tot) { n[0] = 1; tot = 1; } Vec raw(tot + M); double lim = r.pick(std::vector<double>{0.3, 1, 2}); for (auto &v : raw) v = r.range(-lim, lim); c.mixv(raw); for (int v : n) c.mix(v); char d[80]; snprintf(d, sizeof d, "orders %d,%d,%d,%d+%d", n[0], n[1], n[2], n[3], M); In ri(raw, "parameters"); c.hit("transform");
  LVec w(tot); int o0 = 0; LD den = 1; std::vector<LVec> J(tot + M, LVec(tot + M, 0)); for (int i = tot; i < tot + M; i++) J[i][i] = 1;
  for (int b = 0; b < 4; b++) { auto f = [&](const LVec &u) { LVec pc(n[b]); for (int i = 0; i < n[b]; i++) pc[i] = tanhl(u[i]); return frompc(pc); }; LVec u(n[b]); for (int i = 0; i < n[b]; i++) { u[i] = raw[o0 + i]; LD t = tanhl(u[i]); den *= 1 - t * t; } LVec a = f(u); for (int i = 0; i < n[b]; i++) { w[o0 + i] = a[i]; LVec v = u; v[i] += 1e-3; LVec e = f(v); for (int j = 0; j < n[b]; j++) J[o0 + i][o0 + j] = (e[j] - a[j]) / 1e-3L; } o0 += n[b]; }
  Out o(tot, "transformed"); transall(n[0], n[1], n[2], n[3], ri, o); cmp(c, "transall", o, w, 1e-13L, 1, d); Vec f = o.vec(); In fi(f, "coefficients"); Out back(tot, "inverse"); invtransall(n[0], n[1], n[2], n[3], fi, back); cmp(c, "invtransall", back, LVec(raw.begin(), raw.begin() + tot), 1e-13L / den / den, 1, d);
  { o0 = 0; for (int b = 0; b < 4; b++) { if (n[b]) { LVec a(f.begin() + o0, f.begin() + o0 + n[b]); LD mg; c.ok(ora::stationary(a, &mg), "transall:stationary", "%s block %d", d, b); Vec one(raw.begin() + o0, raw.begin() + o0 + n[b]); In oi(one, "parameters"); Out z(n[b], "transformed"); artrans(n[b], oi, z); cmp(c, "artrans", z, a, 1e-14L, 1, d); In zi(z.vec(), "coefficients"); Out q(n[b], "inverse"); arinvtrans(n[b], zi, q); cmp(c, "arinvtrans", q, lv(one), 1e-13L / den / den, 1, d); } o0 += n[b]; } }
  int T = tot + M; Out A(T * T, "jacobian"); A.fill(7.5); gradtrans(ri, n[0], n[1], n[2], n[3], M, A); LVec G(T * T); for (int i = 0; i < T; i++) for (int j = 0; j < T; j++) G[i + j * T] = J[i][j]; c.outv(A, T * T); for (int i = 0; i < T * T; i++) if (!c.ok(fabsl(A[i] - G[i]) <= 1e-10L * 10, "gradtrans", "%s entry (%d,%d) got %.12g want %.12Lg", d, i % T, i / T, A[i], G[i])) break;
  if (c.idx % 101 == 3) c.sample("transall %s first coefficient %.12g oracle %.12Lg", d, o[0], w[0]);
}
void run_case(vf::Ctx &c) { c.nontrivial(); switch (c.rng.irange(0, 4)) { case 0: case 1: differencing(c); break; case 2: polys(c); break; case 3: weights(c); break; default: trans(c); } }
