// C22: FFT, convolution and spectral estimates against direct long-double sums.
#include "vf.h"
#include "gen.h"
extern "C" {
#include "ctsa.h"
#include "spectrum.h"
#include "filter.h"
}
const char *vf_driver_name = "c22_fft";
namespace {
const LD TPI = 6.283185307179586476925286766559005768L;
struct Cx { LD re, im; };
Cx dft(const Vec &re, const Vec &im, int k, int sgn) { int n = re.size(); Cx s{0, 0}; for (int t = 0; t < n; t++) { LD a = -sgn * TPI * (LD)((long long)k * t % n) / n, co = cosl(a), si = sinl(a); s.re += re[t] * co - im[t] * si; s.im += re[t] * si + im[t] * co; } return s; }
Vec rnd(vf::Rng &r, int n) { Vec x(n); int k = r.irange(0, 4); double sc = std::pow(10.0, r.range(-3, 3)); for (int i = 0; i < n; i++) x[i] = k == 0 ? r.norm() : k == 1 ? r.range(0, 1) : k == 2 ? (i == n / 3) : k == 3 ? i + 1 : std::sin(0.7 * i) + 0.1 * r.norm(); for (auto &v : x) v *= sc; return x; }
LD l1(const Vec &a) { LD s = 0; for (double v : a) s += fabsl((LD)v); return s; }
int pickn(vf::Rng &r, int lo, int tier) { if (r.chance(0.25)) { static const int sp[] = {1, 2, 3, 4, 5, 7, 8, 11, 13, 16, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 64, 67, 71, 73, 97, 101, 121, 127, 128, 169, 225, 243, 257, 256, 361, 509, 512, 521, 529, 625, 841, 961, 1021, 1024, 1849, 2209, 2809}; int n = sp[r.irange(0, 48)]; if (n >= lo) return n; } return std::max(lo, r.chance(0.1) ? r.irange(1, tier ? 6000 : 2500) : r.irange(1, 300)); }
std::vector<int> bins(vf::Rng &r, int n) { std::vector<int> b; if (n <= 80) for (int i = 0; i < n; i++) b.push_back(i); else { b = {0, 1, n / 2, n - 1}; for (int i = 0; i < 24; i++) b.push_back(r.irange(0, n - 1)); } return b; }
}
static void do_fft(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = pickn(r, 1, c.tier); Vec re = rnd(r, n), im = rnd(r, n); if (r.chance(0.2)) im.assign(n, 0.0); c.mix(n); c.mixv(re); LD nrm = l1(re) + l1(im); LD tol = 1e-13L * nrm * (1 + logl((LD)n)) + 1e-300L;
  fft_data *a = (fft_data *)malloc(sizeof(fft_data) * n), *b = (fft_data *)malloc(sizeof(fft_data) * n), *d = (fft_data *)malloc(sizeof(fft_data) * n); for (int i = 0; i < n; i++) { a[i].re = re[i]; a[i].im = im[i]; }
  fft_object f = fft_init(n, 1), g = fft_init(n, -1); c.hit(f->lt ? "fft:bluestein" : "fft:mixed-radix");
  for (int rep = 0; rep < 2; rep++) { fft_exec(f, a, b); c.outv((double *)b, 2 * n); for (int i = 0; i < n; i++) if (!c.ok(a[i].re == re[i] && a[i].im == im[i], "io:input-modified:fft", "fft_exec changed its input (N=%d)", n)) break;
    for (int k : bins(r, n)) { Cx w = dft(re, im, k, 1); if (!c.ok(fabsl(b[k].re - w.re) <= tol && fabsl(b[k].im - w.im) <= tol, "fft:forward", "N=%d exec %d bin %d got %.15g%+.15gi want %.15Lg%+.15Lgi", n, rep, k, b[k].re, b[k].im, w.re, w.im)) break; }
    fft_exec(g, b, d); c.outv((double *)d, 2 * n); for (int i = 0; i < n; i++) if (!c.ok(fabsl(d[i].re - (LD)n * re[i]) <= 20 * tol * sqrtl(n) && fabsl(d[i].im - (LD)n * im[i]) <= 20 * tol * sqrtl(n), "fft:inverse", "N=%d exec %d at %d got %.15g want %.15Lg", n, rep, i, d[i].re, (LD)n * re[i])) break;
    fft_exec(g, a, d); for (int k : bins(r, n)) { Cx w = dft(re, im, k, -1); if (!c.ok(fabsl(d[k].re - w.re) <= tol && fabsl(d[k].im - w.im) <= tol, "fft:backward", "N=%d exec %d bin %d got %.15g%+.15gi want %.15Lg%+.15Lgi", n, rep, k, d[k].re, d[k].im, w.re, w.im)) break; } }
  if (c.idx % 211 == 0) c.sample("fft N=%d bin0 %.10g+%.10gi sum of inputs %.10Lg", n, b[0].re, b[0].im, dft(re, im, 0, 1).re);
  free_fft(f); free_fft(g); free(a); free(b); free(d);
}
static void do_real(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = 2 * pickn(r, 1, c.tier); Vec x = rnd(r, n), z(n, 0.0); c.mix(n); c.mixv(x); LD tol = 1e-13L * l1(x) * (1 + logl((LD)n)) + 1e-300L; c.hit("rfft");
  fft_real_object f = fft_real_init(n, 1), g = fft_real_init(n, -1); In xi(x, "series"); fft_data *b = (fft_data *)malloc(sizeof(fft_data) * n); Out y(n, "inverse");
  fft_r2c_exec(f, xi, b); c.outv((double *)b, 2 * n); for (int k : bins(r, n)) { Cx w = dft(x, z, k, 1); if (!c.ok(fabsl(b[k].re - w.re) <= tol && fabsl(b[k].im - w.im) <= tol, "rfft:forward", "N=%d bin %d got %.15g%+.15gi want %.15Lg%+.15Lgi", n, k, b[k].re, b[k].im, w.re, w.im)) break; }
  fft_c2r_exec(g, b, y); c.outv(y, n); for (int i = 0; i < n; i++) if (!c.ok(fabsl(y[i] - (LD)n * x[i]) <= 20 * tol * sqrtl(n), "rfft:inverse", "N=%d at %d got %.15g want %.15Lg", n, i, y[i], (LD)n * x[i])) break;
  free_real_fft(f); free_real_fft(g); free(b);
}
static void do_conv(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = r.chance(0.2) ? r.irange(1, 4) : r.irange(1, 200), m = r.chance(0.3) ? r.irange(1, 4) : r.irange(1, 200); if (r.chance(0.1)) m = n; Vec a = rnd(r, n), b = rnd(r, m); c.mix(n * 1000 + m); c.mixv(a); c.mixv(b); c.hit(n >= m ? "conv:long-first" : "conv:short-first");
  int M = n + m - 1; LVec w(M, 0), e(M, 0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { w[i + j] += (LD)a[i] * b[j]; e[i + j] += fabsl((LD)a[i] * b[j]); } LD ftol = 1e-13L * l1(a) * l1(b) * 8 + 1e-300L;
  In ai(a, "signal"), bi(b, "filter"); char d[60]; snprintf(d, sizeof d, "N=%d L=%d", n, m);
  auto cmp = [&](const char *key, const double *g, int st, int len, bool fft) { c.outv(g, len); for (int i = 0; i < len; i++) if (!c.ok(fabsl(g[i] - w[st + i]) <= (fft ? ftol : 1e-13L * e[st + i] + 1e-300L), key, "%s at %d got %.15g want %.15Lg", d, i, g[i], w[st + i])) return; };
  { Out o(M, "conv"); conv_direct(ai, n, bi, m, o); cmp("conv_direct", o, 0, M, false); } { Out o(M, "conv"); conv_directx(ai, n, bi, m, o); cmp("conv_directx", o, 0, M, false); } { Out o(M, "conv"); conv(ai, n, bi, m, o); cmp("conv", o, 0, M, false); } { Out o(M, "conv"); convx(ai, n, bi, m, o); cmp("convx", o, 0, M, false); }
  { Out o(n, "filter"); filter(ai, n, bi, m, o); cmp("filter", o, 0, n, false); }
  { conv_object q = conv_init(n, m); Out o(M, "conv"); for (int rep = 0; rep < 2; rep++) { conv_fft(q, ai, bi, o); cmp("conv_fft", o, 0, M, true); } free_conv(q); }
  int hi = std::max(n, m), lo = std::min(n, m); for (int me = 0; me < 2; me++) { const char *mm = me ? "fft" : "direct"; struct { const char *t; int st, len; } T[3] = {{"full", 0, M}, {"same", (lo - 1) / 2, hi}, {"valid", lo - 1, hi - lo + 1}};
    for (auto &t : T) { Out o(t.len, "convolve"); int k = convolve(t.t, mm, ai, n, bi, m, o); char key[60]; snprintf(key, sizeof key, "convolve:%s:%s", t.t, mm); if (c.ok(k == t.len, key, "%s returns length %d, want %d", d, k, t.len)) cmp(key, o, t.st, t.len, me == 1); } }
  int q = r.irange(1, 5000); auto sm = [](int v) { for (int p : {2, 3, 5, 7}) while (v % p == 0) v /= p; return v == 1; }; int e1 = q; while (!sm(e1)) e1++; int e2 = q; while (!sm(e2) || e2 % 2) e2++; c.ok(findnext(q) == e1, "findnext", "findnext(%d)=%d want %d", q, findnext(q), e1); c.ok(findnexte(q) == e2, "findnexte", "findnexte(%d)=%d want %d", q, findnexte(q), e2);
}
static void do_spec(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = pickn(r, 2, 0), F = r.chance(0.4) ? n : n + r.irange(1, 200), side = r.irange(1, 2); Vec x = rnd(r, n); c.mix(n * 7 + side); c.mix(F); c.mixv(x); In xi(x, "series"); LD s1 = l1(x); char d[60]; snprintf(d, sizeof d, "N=%d Nfft=%d side=%d", n, F, side); c.hit(n % 2 ? "spectrum:odd" : "spectrum:even");
  auto run = [&](const char *nm, int len, const Vec &v, LD den, const double *sp, const double *fr) { int h = len / 2, tot = side == 2 ? len : h + 1; c.outv(sp, tot); Vec z(v.size(), 0.0); char k1[60], k2[60]; snprintf(k1, sizeof k1, "%s:value", nm); snprintf(k2, sizeof k2, "%s:frequency", nm); LD tol = 1e-13L * s1 * s1 / den * 10 + 1e-300L;
    for (int i = 0; i < tot; i++) if (!c.ok(sp[i] >= 0, k1, "%s negative at %d: %g", d, i, sp[i])) break;
    for (int i : bins(r, h + 1)) { Cx w = dft(v, z, i, 1); LD p = (w.re * w.re + w.im * w.im) / den; bool edge = i == 0 || (len % 2 == 0 && i == h); if (side == 1 && !edge) p *= 2; if (!c.ok(fabsl(sp[i] - p) <= tol, k1, "%s bin %d got %.15g want %.15Lg", d, i, sp[i], p)) break; if (!c.ok(fabsl(fr[i] - TPI * i / len) < 1e-13L * 7, k2, "%s bin %d frequency %.15g", d, i, fr[i])) break;
      if (side == 2 && !edge) { if (!c.ok(fabsl(sp[len - i] - p) <= tol, k1, "%s bin %d got %.15g want %.15Lg", d, len - i, sp[len - i], p)) break; if (!c.ok(fabsl(fr[len - i] + TPI * i / len) < 1e-13L * 7, k2, "%s bin %d frequency %.15g", d, len - i, fr[len - i])) break; } } };
  { spectrum_fft_object o = spectrum_fft_init(n, F); int len = side == 2 ? n : n / 2 + 1; Out s(len, "spectrum"), f(len, "frequency"); periodogram(o, xi, s, f, side); run("periodogram", n, x, n, s, f);
    if (side == 2) { LD p = 0, q = 0; for (int i = 0; i < n; i++) { p += s[i]; q += (LD)x[i] * x[i]; } c.ok(fabsl(p - q * 1) <= 1e-10L * q, "periodogram:parseval", "%s sum of the spectrum %.15Lg, sum of squares %.15Lg", d, p, q); Vec f0 = f.vec(), s0 = s.vec(); spectrum_shift(f, n); spectrum_shift(s, n); for (int i = 1; i < n; i++) if (!c.ok(f[i] > f[i - 1], "spectrum_shift:order", "%s at %d", d, i)) break; std::vector<std::pair<double, double>> P; for (int i = 0; i < n; i++) P.push_back({f0[i], s0[i]}); std::sort(P.begin(), P.end()); for (int i = 0; i < n; i++) if (!c.ok(P[i].second == s[i], "spectrum_shift:value", "%s at %d", d, i)) break; }
    int l2 = side == 2 ? F : F / 2 + 1; Out s2(l2, "psd"), f2(l2, "frequency"); psd(o, xi, s2, f2, side); Vec xp = x; xp.resize(F, 0.0); run("psd", F, xp, TPI * n, s2, f2); free_spectrum(o); }
  { // transform of the autocovariance sequence
    auto_fft_object o = auto_fft_init(n); int len = F / 2 + 1; Out s(len, "psd"), f(len, "frequency"); psd_autocovar(o, xi, s, f, F, side); free_auto(o); c.outv(s, len); LD m = 0; for (double v : x) m += v; m /= n; Vec g(F, 0.0), z(F, 0.0); LD ag = 0; for (int k = 0; k < n; k++) { LD q = 0; for (int t = 0; t + k < n; t++) q += (x[t] - m) * (x[t + k] - m); g[k] = (double)(q / n); ag += fabsl(q / n); }
    LD g0 = g[0] + 1e-12L * s1 * s1 / n / n, tol = 1e-11L * (ag + n * 1e-3L * g0) * (ag + n * 1e-3L * g0) / (TPI * n) + 1e-300L; for (int i : bins(r, len)) { Cx w = dft(g, z, i, 1); LD p = (w.re * w.re + (i ? w.im * w.im : 0)) / (TPI * n); if (!c.ok(fabsl(s[i] - p) <= tol, "psd_autocovar:value", "%s bin %d got %.15g want %.15Lg", d, i, s[i], p)) break; if (!c.ok(fabsl(f[i] - TPI * i / F) < 1e-12L, "psd_autocovar:frequency", "%s bin %d frequency %.15g", d, i, f[i])) break; } }
}
void run_case(vf::Ctx &c) { c.nontrivial(); int k = c.rng.irange(0, 9); if (k < 3) do_fft(c); else if (k < 5) do_real(c); else if (k < 8) do_conv(c); else do_spec(c); }
