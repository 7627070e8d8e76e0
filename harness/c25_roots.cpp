// C25: polynomial root finding.
#include "vf.h"
#include "gen.h"
#include <complex>
extern "C" {
#include "ctsa.h"
#include "polyroot.h"
}
typedef long double LD; typedef std::complex<LD> CL;
const char *vf_driver_name = "c25_roots";
// ascending coefficients of lead * prod (x - r), roots taken in Leja order so the product is stable
static std::vector<CL> expand(CL lead, std::vector<CL> r, std::vector<LD> *mag = nullptr) {
  std::vector<CL> p{lead}; std::vector<LD> m{std::abs(lead)}; std::vector<LD> w(r.size(), 0); std::vector<bool> used(r.size(), false);
  for (size_t k = 0; k < r.size(); k++) { size_t b = 0; LD bv = -INFINITY; bool f = false; for (size_t i = 0; i < r.size(); i++) if (!used[i]) { LD v = k == 0 ? std::abs(r[i]) : w[i]; if (!f || v > bv) b = i, bv = v, f = true; } used[b] = true; for (size_t i = 0; i < r.size(); i++) if (!used[i]) w[i] += logl(std::max(1e-4000L, std::abs(r[i] - r[b])));
    std::vector<CL> q(p.size() + 1, 0); std::vector<LD> n(m.size() + 1, 0); for (size_t i = 0; i < p.size(); i++) { q[i + 1] += p[i]; q[i] -= p[i] * r[b]; n[i + 1] += m[i]; n[i] += m[i] * std::abs(r[b]); } p = q; m = n; }
  if (mag) *mag = m; return p; }
void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int kind = r.irange(0, 9); bool cplx = r.chance(0.35); int n = r.chance(0.06) ? r.irange(41, 140) : r.chance(0.3) ? r.irange(9, 40) : r.irange(1, 8); std::vector<CL> a; const char *nm = "";
  auto pick = [&](double lo, double hi) { return r.range(lo, hi) * (r.chance(0.5) ? 1 : -1); };
  if (kind <= 1) { nm = "random"; a.resize(n + 1); for (auto &v : a) v = CL(r.norm(), cplx ? r.norm() : 0); }
  else if (kind == 2) { nm = "stationary-ar"; int k = std::min(n, 12); Vec p = gen::statcoef(r, k, 0.9); a.assign(1, 1); for (double v : p) a.push_back(-v); cplx = false; }
  else if (kind == 3) { nm = "seasonal"; int s = r.irange(2, 12), k = std::max(1, std::min(6, n / s)); a.assign(s * k + 1, 0); Vec p = gen::statcoef(r, k, 0.9); a[0] = 1; for (int i = 0; i < k; i++) a[(i + 1) * s] = -p[i]; cplx = false; }
  else if (kind == 4) { nm = "unity"; a.assign(n + 1, 0); a[0] = pick(0.1, 10); a[n] = pick(0.1, 10); if (cplx) a[0] *= CL(0.6L, 0.8L); if (n > 3 && r.chance(0.5)) a[r.irange(1, n - 1)] = pick(0.01, 3); }
  else if (kind == 5) { nm = "spread"; n = std::min(n, 14); std::vector<CL> z; while ((int)z.size() < n) { double m = std::pow(10.0, r.range(-4, 4)); if (cplx) z.push_back(std::polar((LD)m, (LD)r.range(-3.14, 3.14))); else if ((int)z.size() + 1 < n && r.chance(0.5)) { CL w = std::polar((LD)m, (LD)r.range(0, 3.14)); z.push_back(w); z.push_back(std::conj(w)); } else z.push_back(r.chance(0.5) ? m : -m); } a = expand(1, z); }
  else if (kind == 6) { nm = "multiple"; n = std::min(n, 10); std::vector<CL> z; CL w = cplx ? CL(r.norm(), r.norm()) : CL(pick(0.3, 3), 0); int m = r.irange(2, 4); while ((int)z.size() < n) { if (m-- <= 0) { m = r.irange(1, 3); w = cplx ? CL(r.norm(), r.norm()) : CL(pick(0.3, 3), 0); } z.push_back(w); } a = expand(pick(0.5, 3), z); }
  else if (kind == 7) { nm = "scaled"; n = std::min(n, 20); a.resize(n + 1); double s = std::pow(10.0, r.range(-150, 150)); for (auto &v : a) v = CL(s * r.norm(), cplx ? s * r.norm() : 0); }
  else if (kind == 8) { nm = "near-circle"; n = std::min(n, 16); std::vector<CL> z; while ((int)z.size() < n) { double m = 1 + r.range(-0.05, 0.05); if ((int)z.size() + 1 < n) { CL w = std::polar((LD)m, (LD)r.range(0.05, 3.1)); z.push_back(w); z.push_back(std::conj(w)); } else z.push_back(r.chance(0.5) ? m : -m); } a = expand(1, z); cplx = false; }
  else { nm = "sparse"; a.assign(n + 1, 0); for (auto &v : a) if (r.chance(0.4)) v = CL(r.norm(), cplx ? r.norm() : 0); a[0] = pick(0.01, 2); a[n] = pick(0.01, 2); }
  n = a.size() - 1; Vec re(n + 1), im(n + 1); int origin = 0; for (int i = 0; i <= n; i++) { re[i] = (double)a[i].real(); im[i] = cplx ? (double)a[i].imag() : 0; }
  if (r.chance(0.08)) { origin = r.irange(1, n); for (int i = 0; i < origin; i++) re[i] = im[i] = 0; }
  bool lead0 = r.chance(0.04); if (lead0) re[n] = im[n] = 0; else if (re[n] == 0 && im[n] == 0) re[n] = 1; if (origin == 0 && re[0] == 0 && im[0] == 0) re[0] = 1; if (origin > 0 && origin < n && re[origin] == 0 && im[origin] == 0) re[origin] = 1;
  for (int i = 0; i <= n; i++) a[i] = CL(re[i], im[i]); c.mixv(re); c.mixv(im); c.nontrivial(); char d[100]; snprintf(d, sizeof d, "%s degree %d%s%s", nm, n, cplx ? " complex" : "", origin ? " roots at the origin" : "");
  In ri(re, "coefficients"), ii(im, "coefficients"); Out zr(n, "roots"), zi(n, "roots"); zr.fill(0); zi.fill(0); int rc;
  if (cplx) rc = cpolyroot(ri, ii, n, zr, zi); else rc = polyroot(ri, n, zr, zi); c.outi(rc);
  if (lead0) { c.hit("rejected"); c.ok(rc == 1, "leading-zero", "%s accepted", d); return; }
  c.outv(zr, n); c.outv(zi, n); c.hit(nm);
  if (n > 40) { c.hit("high-degree"); return; }  // deflation in double precision no longer guarantees accuracy; memory and purity are still observed
  if (!c.ok(rc == 0, "success", "%s not solved", d)) return;
  std::vector<CL> z(n); bool fin = true; for (int i = 0; i < n; i++) { z[i] = CL(zr[i], zi[i]); fin = fin && std::isfinite(zr[i]) && std::isfinite(zi[i]); } if (!c.ok(fin, "finite", "%s", d)) return;
  int at0 = 0; for (auto &v : z) if (v == CL(0, 0)) at0++; c.ok(at0 == origin, "origin", "%s %d roots at zero, want %d", d, at0, origin);
  // every root is a root (backward error), and together they multiply out to the polynomial
  double worst = 0; for (int i = 0; i < n; i++) { CL p = 0; LD q = 0, m = std::abs(z[i]); bool rev = m > 1; CL x = rev ? CL(1) / z[i] : z[i]; if (rev) m = 1 / m; for (int k = 0; k <= n; k++) { CL v = rev ? a[k] : a[n - k]; p = p * x + v; q = q * m + std::abs(v); } worst = std::max(worst, (double)(std::abs(p) / q)); }
  c.ok(worst <= (n <= 16 ? 1e-9 : 1e-5), "root", "%s worst backward error %.3g", d, worst);
  std::vector<LD> mag; std::vector<CL> e = expand(a[n], z, &mag); double wc = 0; int wk = 0; for (int k = 0; k <= n; k++) { double v = (double)(std::abs(e[k] - a[k]) / mag[k]); if (v > wc) wc = v, wk = k; } c.ok(wc <= (n <= 16 ? 1e-9 : 1e-5), "product", "%s coefficient %d off by %.3g of its scale", d, wk, wc);
  if (!cplx) for (int i = 0; i < n; i++) { if (fabsl(z[i].imag()) <= 1e-9L * std::abs(z[i])) { c.hit("real"); continue; } LD bd = INFINITY, sep = 1; int b = -1; for (int j = 0; j < n; j++) if (j != i) { LD q = std::abs(z[j] - std::conj(z[i])); if (q < bd) bd = q, b = j; } for (int j = 0; j < n; j++) if (j != i && j != b) sep *= std::min(1.0L, std::abs(z[j] - z[i]) / (std::abs(z[i]) + std::abs(z[j])));
    LD tol = (n <= 16 ? 1e-8L : 1e-4L) / std::max(1e-30L, sep * std::min(1.0L, fabsl(z[i].imag()) / std::abs(z[i]))); if (tol > 0.1L) { c.hit("pairs:clustered"); continue; } c.hit("pairs"); if (!c.ok(bd <= tol * std::abs(z[i]), "conjugate", "%s root (%.12Lg,%.12Lg) has no conjugate (nearest %.3Lg)", d, z[i].real(), z[i].imag(), bd)) break; }
  if (c.idx % 311 == 5) c.sample("%s worst root backward error %.2g, product error %.2g", d, worst, wc);
}
