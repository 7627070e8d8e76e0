// C19: STL, multiple-seasonal STL and classical decomposition against independent long-double implementations.
#include "vf.h"
#include "gen.h"
extern "C" {
#include "ctsa.h"
#include "seastest.h"
}
const char *vf_driver_name = "c19_decomp";
namespace {
thread_local bool near_thr;  // a robustness weight close to one of its thresholds
// local regression at position xs (1-based abscissae) over points nl..nr
bool loc(const LVec &y, int len, int deg, LD xs, int nl, int nr, const LVec *rw, LD &out) {
  int n = y.size(); LD h = std::max(xs - nl, nr - xs); if (len > n) h += (len - n) / 2;
  LVec w(nr + 1, 0.0L); LD a = 0;
  for (int j = nl; j <= nr; j++) { LD r = fabsl(j - xs); if (r <= h * 0.999L) { LD q = r / h; w[j] = r <= h * 0.001L ? 1 : powl(1 - q * q * q, 3); if (rw) w[j] *= (*rw)[j - 1]; a += w[j]; } }
  if (!(a > 0)) return false;
  LD m = 0, c = 0, my = 0, sxy = 0; for (int j = nl; j <= nr; j++) { w[j] /= a; m += w[j] * j; my += w[j] * y[j - 1]; }
  for (int j = nl; j <= nr; j++) { c += w[j] * (j - m) * (j - m); sxy += w[j] * (j - m) * y[j - 1]; }
  out = my; if (h > 0 && deg > 0 && sqrtl(c) > (n - 1) * 0.001L) out += (xs - m) * sxy / c;
  return true;
}
void win(int n, int len, int i, int &nl, int &nr) { // window of len points around i, 1-based
  if (len >= n) { nl = 1; nr = n; return; }
  int half = (len + 1) / 2; nl = std::min(std::max(i - half + 1, 1), n - len + 1); nr = nl + len - 1;
}
LVec lo(const LVec &y, int len, int deg, int jump, const LVec *rw) {
  int n = y.size(); LVec o(n); if (n < 2) { o[0] = y[0]; return o; }
  int nj = std::min(jump, n - 1), nl = 1, nr = n, last = 1;
  auto at = [&](int i) { win(n, len, i, nl, nr); if (!loc(y, len, deg, i, nl, nr, rw, o[i - 1])) o[i - 1] = y[i - 1]; };
  for (int i = 1; i <= n; i += nj) { at(i); if (i > 1) for (int k = last + 1; k < i; k++) o[k - 1] = o[last - 1] + (o[i - 1] - o[last - 1]) * (k - last) / (i - last); last = i; }
  if (last != n) { // the end point uses the window of the last fitted point
    if (!loc(y, len, deg, n, nl, nr, rw, o[n - 1])) o[n - 1] = y[n - 1];
    for (int k = last + 1; k < n; k++) o[k - 1] = o[last - 1] + (o[n - 1] - o[last - 1]) * (k - last) / (n - last);
  }
  return o;
}
LVec ma(const LVec &x, int len) { int m = x.size() - len + 1; LVec o(m); for (int i = 0; i < m; i++) { LD s = 0; for (int k = 0; k < len; k++) s += x[i + k]; o[i] = s / len; } return o; }
struct Opt { int ns, nt, nl, sd, td, ld, sj, tj, lj, ni, no; };
void stl_ref(const LVec &y, int f, Opt o, LVec &S, LVec &T) {
  int n = y.size(); auto odd = [](int v) { v = std::max(3, v); return v % 2 ? v : v + 1; };
  o.ns = odd(o.ns); o.nt = odd(o.nt); o.nl = odd(o.nl); LVec rw(n, 1); bool use = false; T.assign(n, 0); S.assign(n, 0);
  for (int it = 0;; it++) {
    for (int in = 0; in < o.ni; in++) {
      LVec C(n + 2 * f), d(n);
      for (int j = 0; j < f; j++) { LVec sub, sw; for (int i = j; i < n; i += f) { sub.push_back(y[i] - T[i]); sw.push_back(rw[i]); }
        int k = sub.size(); LVec sm = lo(sub, o.ns, o.sd, o.sj, use ? &sw : nullptr); LD e;
        if (!loc(sub, o.ns, o.sd, 0, 1, std::min(o.ns, k), use ? &sw : nullptr, e)) e = sm[0];
        C[j] = e; for (int i = 0; i < k; i++) C[j + (i + 1) * f] = sm[i];
        if (!loc(sub, o.ns, o.sd, k + 1, std::max(1, k - o.ns + 1), k, use ? &sw : nullptr, e)) e = sm[k - 1];
        C[j + (k + 1) * f] = e; }
      LVec L = lo(ma(ma(ma(C, f), f), 3), o.nl, o.ld, o.lj, nullptr);
      for (int i = 0; i < n; i++) { S[i] = C[f + i] - L[i]; d[i] = y[i] - S[i]; }
      T = lo(d, o.nt, o.td, o.tj, use ? &rw : nullptr);
    }
    if (it >= o.no) break;
    LVec r(n); for (int i = 0; i < n; i++) r[i] = fabsl(y[i] - S[i] - T[i]);
    LVec q = r; std::sort(q.begin(), q.end()); LD m6 = 3 * (q[n / 2] + q[n - 1 - n / 2]);
    LD ly = 0; for (LD v : y) ly = std::max(ly, fabsl(v)); if (m6 < 1e-7L * ly) near_thr = true;
    for (int i = 0; i < n; i++) { if (fabsl(r[i] - 0.001L * m6) < 1e-6L * m6 || fabsl(r[i] - 0.999L * m6) < 1e-6L * m6) near_thr = true; LD u = r[i] / m6; rw[i] = r[i] <= 0.001L * m6 ? 1 : r[i] <= 0.999L * m6 ? (1 - u * u) * (1 - u * u) : 0; }
    use = true;
  }
}
Opt defaults(int N, int f, int ns) { (void)N; auto odd = [](int v) { return v % 2 ? v : v + 1; }; Opt o; o.ns = ns; o.nt = odd((int)ceil(1.5 * f / (1 - 1.5 / ns))); o.nl = odd(f); o.sd = 0; o.td = o.ld = 1; auto j = [](int w) { return (w + 9) / 10; }; o.sj = j(o.ns); o.tj = j(o.nt); o.lj = j(o.nl); o.ni = 2; o.no = 0; return o; }
void cmp(vf::Ctx &c, const char *key, const double *got, const LVec &want, double tol, const char *d) { for (size_t i = 0; i < want.size(); i++) if (!c.ok(std::fabs(got[i] - (double)want[i]) <= tol, key, "%s at %zu got %.15g want %.15Lg", d, i, got[i], want[i])) return; }
LVec bc(const Vec &x, double l) { LVec y(x.size()); for (size_t i = 0; i < x.size(); i++) y[i] = l == 0 ? logl((LD)x[i]) : expm1l(l * logl((LD)x[i])) / l; return y; }
}
static void do_stl(vf::Ctx &c, Vec x, int f) {
  vf::Rng &r = c.rng; int N = x.size(); double lev = 0; for (double v : x) lev = std::max(lev, std::fabs(v));
  bool per = r.chance(0.35); int ns = per ? 10 * N + 1 : r.irange(3, 35); Opt o = defaults(N, f, ns);
  int nt = 0, nl = 0, sd = 0, td = 0, ld = 0, sj = 0, tj = 0, lj = 0, rob = 0, in = 0, out = 0; int *pnt = 0, *pnl = 0, *psd = 0, *ptd = 0, *pld = 0, *psj = 0, *ptj = 0, *plj = 0, *prob = 0, *pin = 0, *pout = 0;
  if (r.chance(0.4)) { o.nt = nt = r.irange(3, N + 20); pnt = &nt; } if (r.chance(0.3)) { o.nl = nl = r.irange(3, 3 * f + 3); pnl = &nl; }
  if (r.chance(0.5)) { o.sd = sd = r.irange(0, 1); psd = &sd; } if (r.chance(0.4)) { o.td = o.ld = td = r.irange(0, 1); ptd = &td; } if (r.chance(0.3)) { o.ld = ld = r.irange(0, 1); pld = &ld; }
  auto j10 = [](int w) { return (w + 9) / 10; }; o.tj = j10(o.nt); o.lj = j10(o.nl);
  if (r.chance(0.4)) { o.sj = sj = r.irange(1, 6); psj = &sj; } if (r.chance(0.4)) { o.tj = tj = r.irange(1, 9); ptj = &tj; } if (r.chance(0.4)) { o.lj = lj = r.irange(1, 9); plj = &lj; }
  if (r.chance(0.35)) { rob = r.irange(0, 1); prob = &rob; if (rob) { o.ni = 1; o.no = 15; } }
  if (r.chance(0.3)) { o.ni = in = r.irange(1, 4); pin = &in; } if (r.chance(0.3)) { o.no = out = r.irange(0, 5); pout = &out; }
  char d[300]; snprintf(d, sizeof d, "stl N=%d f=%d per=%d ns=%d nt=%d nl=%d deg=%d%d%d jump=%d,%d,%d inner=%d outer=%d", N, f, per, o.ns, o.nt, o.nl, o.sd, o.td, o.ld, o.sj, o.tj, o.lj, o.ni, o.no);
  c.mix(o.nt * 1000 + o.ns); c.mix(o.sd + 2 * o.td + 4 * o.ld + 8 * o.ni + 64 * o.no + 4096 * (o.sj + 32 * o.tj + 1024 * o.lj)); c.hit(o.no ? "stl:robust" : per ? "stl:periodic" : "stl");
  In xi(x, "series"); Out s(N, "seasonal"), t(N, "trend"), e(N, "remainder");
  stl(xi, N, f, per ? "period" : "null", &ns, psd, pnt, ptd, pnl, pld, psj, ptj, plj, prob, pin, pout, s, t, e);
  c.outv(s, N); c.outv(t, N); c.outv(e, N);
  double eps = 1e-12 * lev; for (int i = 0; i < N; i++) if (!c.ok(std::fabs(s[i] + t[i] + e[i] - x[i]) <= eps, "stl:sum", "%s at %d %.15g+%.15g+%.15g != %.15g", d, i, s[i], t[i], e[i], x[i])) break;
  if (per) for (int i = f; i < N; i++) if (!c.ok(s[i] == s[i - f], "stl:periodic", "%s seasonal at %d and one period before differ: %.15g %.15g", d, i, s[i], s[i - f])) break;
  LVec y(x.begin(), x.end()), S, T; near_thr = false; stl_ref(y, f, o, S, T); if (per) { for (int j = 0; j < f; j++) { LD m = 0; int k = 0; for (int i = j; i < N; i += f) { m += S[i]; k++; } for (int i = j; i < N; i += f) S[i] = m / k; } }
  if (o.no) { LVec y2 = y, S2, T2; for (int i = 0; i < N; i++) y2[i] += r.range(-1, 1) * 1e-13L * lev; bool nt0 = near_thr; stl_ref(y2, f, o, S2, T2); near_thr = nt0; LD dd = 0; for (int i = 0; i < N; i++) dd = std::max(dd, fabsl(T2[i] - T[i])); if (dd > 1e-10L * lev) near_thr = true; }
  if (near_thr) { c.inconclusive("stl:robustness-threshold"); return; }
  LD spread = 0; for (double v : x) spread += fabsl(v - x[0]); spread /= N; double tol = o.no ? 1e-5 * (double)spread + 1e-11 * lev : 1e-9 * lev;
  if (o.no && lev > 1e4 * spread) { c.inconclusive("stl:robust-rounding"); return; }
  cmp(c, o.no ? "stl:robust-seasonal" : "stl:seasonal", s, S, tol, d); cmp(c, o.no ? "stl:robust-trend" : "stl:trend", t, T, tol, d);
  if (!o.no && !r.irange(0, 2)) { // equivariance, with power-of-two scale
    double b = std::ldexp(r.chance(0.5) ? 1 : -1, r.irange(-5, 5)), a = r.range(-3, 3) * lev; Vec z(N); for (int i = 0; i < N; i++) z[i] = b * x[i] + a; In zi(z, "series"); Out s2(N, "seasonal"), t2(N, "trend"), e2(N, "remainder");
    stl(zi, N, f, per ? "period" : "null", &ns, psd, pnt, ptd, pnl, pld, psj, ptj, plj, prob, pin, pout, s2, t2, e2); LVec ws(N), wt(N); for (int i = 0; i < N; i++) { ws[i] = b * s[i]; wt[i] = b * t[i] + a; }
    double l2 = std::fabs(b) * lev + std::fabs(a); cmp(c, "stl:equivariant-seasonal", s2, ws, 1e-10 * l2, d); cmp(c, "stl:equivariant-trend", t2, wt, 1e-10 * l2, d); }
  if (c.idx % 97 == 3) c.sample("%s seasonal[0]=%.8g oracle %.8Lg", d, s[0], S[0]);
}
static void do_mstl(vf::Ctx &c, Vec x) {
  vf::Rng &r = c.rng; int N = x.size(); bool one = r.chance(0.3); double lam = 0; double *pl = nullptr; int sw = r.irange(5, 25), *psw = r.chance(0.5) ? &sw : nullptr; int ns = psw ? sw : 13;
  if (r.chance(0.3)) { double mn = 1e300, mx = -1e300; for (double v : x) { mn = std::min(mn, v); mx = std::max(mx, v); } double sd = (mx - mn) / 6; for (auto &v : x) v = 1 + 4 * (v - mn) / sd * 0.5; lam = r.chance(0.3) ? 0 : r.range(-1, 2); pl = &lam; }
  LVec y(x.begin(), x.end()); if (pl) y = bc(x, lam); LD lev = 0; for (LD v : y) lev = std::max(lev, fabsl(v)); double tol = 1e-10 * (double)lev;
  In xi(x, "series"); Out t(N, "trend"), e(N, "remainder"); char d[200]; c.mix(ns); c.mixd(lam);
  if (one) {
    int f = r.chance(0.2) ? 1 : r.irange(2, std::min(24, N / 2)); snprintf(d, sizeof d, "modstl N=%d f=%d s_window=%d lambda=%g", N, f, ns, pl ? lam : 99); Out s(N, "seasonal"); c.hit(f > 1 ? "modstl" : "modstl:nonseasonal"); c.mix(f);
    modstl(xi, N, f, psw, pl, s, t, e); c.outv(s, N); c.outv(t, N); c.outv(e, N);
    for (int i = 0; i < N; i++) if (!c.ok(fabsl(y[i] - s[i] - t[i] - e[i]) <= tol, "modstl:sum", "%s at %d: %.15g+%.15g+%.15g != %.15Lg", d, i, s[i], t[i], e[i], y[i])) break;
    if (f > 1) { LVec S, T; stl_ref(y, f, defaults(N, f, ns), S, T); cmp(c, "modstl:seasonal", s, S, tol, d); cmp(c, "modstl:trend", t, T, tol, d); }
    else { for (int i = 0; i < N; i++) if (!c.ok(s[i] == 0, "modstl:nonseasonal", "%s seasonal[%d]=%g", d, i, s[i])) break; Vec tt(N), yy(N); for (int i = 0; i < N; i++) { tt[i] = i; yy[i] = (double)y[i]; } if (!pl) { In ti(tt, "time"), yi(yy, "series"); Out q(N, "smooth"); supsmu(ti, N, yi, nullptr, 1, 0, -1.0, q); cmp(c, "modstl:supersmoother", t, LVec(q.p, q.p + N), tol, d); } }
    return;
  }
  int K = r.irange(1, 3); std::vector<int> f(K), g; for (auto &v : f) v = r.chance(0.1) ? r.irange(N / 2, N) : r.irange(2, std::min(30, N / 2 - 1)); std::vector<int> f0 = f; for (int v : f) if (v < N / 2) g.push_back(v); std::sort(g.begin(), g.end());
  for (size_t i = 1; i < g.size(); i++) if (g[i] == g[i - 1]) return;
  int it = r.irange(1, 3), *pit = r.chance(0.5) ? &it : nullptr, iters = pit ? it : 2, n2 = K; snprintf(d, sizeof d, "mstl N=%d K=%d f=%d,%d,%d s_window=%d iterate=%d lambda=%g", N, K, f[0], K > 1 ? f[1] : 0, K > 2 ? f[2] : 0, ns, iters, pl ? lam : 99);
  c.mix(iters); for (int v : f) c.mix(v); c.hit(g.size() == 0 ? "mstl:none" : g.size() == 1 ? "mstl:1" : "mstl:many");
  std::vector<Out *> so; std::vector<double *> sp; for (int i = 0; i < K; i++) { so.push_back(new Out(N, "seasonal")); sp.push_back(*so[i]); }
  mstl(xi, N, f.data(), &n2, psw, pl, pit, sp.data(), t, e); c.outi(n2); c.outv(t, N); c.outv(e, N); for (int k = 0; k < n2 && k < K; k++) c.outv(sp[k], N);
  if (c.ok(n2 == (int)g.size(), "mstl:periods", "%s uses %d periods", d, n2)) {
    for (int i = 0; i < N; i++) { LD s = t[i] + (LD)e[i]; for (int k = 0; k < n2; k++) s += sp[k][i]; if (!c.ok(fabsl(s - y[i]) <= tol, "mstl:sum", "%s at %d components add to %.15Lg, series %.15Lg", d, i, s, y[i])) break; }
    std::vector<int> h(f.begin(), f.begin() + n2), hs = h; std::sort(hs.begin(), hs.end()); c.ok(hs == g, "mstl:reported-periods", "%s", d);
    if (n2 && hs == g) { std::vector<LVec> S(n2, LVec(N, 0)); LVec T, de = y; for (int j = 0; j < iters; j++) for (int k = 0; k < n2; k++) { for (int i = 0; i < N; i++) de[i] += S[k][i]; stl_ref(de, h[k], defaults(N, h[k], ns), S[k], T); for (int i = 0; i < N; i++) de[i] -= S[k][i]; }
      cmp(c, "mstl:trend", t, T, tol, d); for (int k = 0; k < n2; k++) cmp(c, "mstl:seasonal", sp[k], S[k], tol, d); }
  }
  for (auto *p : so) delete p;
}
static void do_decompose(vf::Ctx &c, Vec x, int f) {
  vf::Rng &r = c.rng; int N = x.size(); bool mul = r.chance(0.5); if (mul) { double mn = 1e300, mx = -1e300; for (double v : x) { mn = std::min(mn, v); mx = std::max(mx, v); } for (auto &v : x) v = (v - mn) + (mx - mn) * 0.3; }
  int h = f / 2, L = 2 * h + 1, n = N - 2 * h; bool cf = r.chance(0.3); LVec w(L, 1.0L / f); if (f % 2 == 0) w[0] = w[L - 1] = 0.5L / f; Vec wd(L);
  if (cf) { LD s = 0; for (int i = 0; i <= h; i++) { w[i] = w[L - 1 - i] = r.range(0.1, 1); } for (auto v : w) s += v; for (int i = 0; i < L; i++) wd[i] = (double)(w[i] / s), w[i] = wd[i]; }
  char d[120]; snprintf(d, sizeof d, "decompose %s N=%d f=%d%s", mul ? "mul" : "add", N, f, cf ? " filter" : ""); c.hit(mul ? "decompose:mul" : "decompose:add"); c.mix(mul * 2 + cf);
  In xi(x, "series"), wi(wd, "filter"); Out t(n, "trend"), s(n, "seasonal"), e(n, "random"); int lt = -1, ls = -1, le = -1; decompose(xi, N, f, cf ? wi.p : nullptr, mul ? "multiplicative" : "additive", t, &lt, s, &ls, e, &le); c.outi(lt);
  if (!c.ok(lt == n && ls == n && le == n, "decompose:lengths", "%s lengths %d %d %d, want %d", d, lt, ls, le, n)) return; c.outv(t, n); c.outv(s, n); c.outv(e, n);
  LVec T(n), D(n), m(f, 0), S(n), E(n); std::vector<int> k(f, 0); LD lev = 0, avg = 0; for (double v : x) lev = std::max(lev, fabsl((LD)v));
  for (int i = 0; i < n; i++) { LD v = 0; for (int j = 0; j < L; j++) v += w[j] * x[i + j]; T[i] = v; D[i] = mul ? x[i + h] / v : x[i + h] - v; m[i % f] += D[i]; k[i % f]++; }
  for (int j = 0; j < f; j++) { m[j] /= k[j]; avg += m[j] / f; } for (int i = 0; i < n; i++) { S[i] = mul ? m[i % f] / avg : m[i % f] - avg; E[i] = mul ? D[i] / S[i] : D[i] - S[i]; }
  double tol = (mul ? 1e-10 * 20 : 1e-10 * (double)lev); cmp(c, "decompose:trend", t, T, 1e-10 * (double)lev, d); cmp(c, "decompose:seasonal", s, S, tol, d);
  LD smin = 1e9; if (mul) for (LD v : S) smin = std::min(smin, fabsl(v)); if (mul && smin < 0.02) { c.hit("tiny-factor"); return; }
  for (int i = 0; i < n; i++) { if (!c.ok(fabsl(e[i] - E[i]) <= tol * (1 + (mul ? fabsl(E[i]) / smin : 0)), "decompose:random", "%s at %d got %.15g want %.15Lg", d, i, e[i], E[i])) break; LD b = mul ? (LD)t[i] * s[i] * e[i] : (LD)t[i] + s[i] + e[i]; if (!c.ok(fabsl(b - x[i + h]) <= 1e-10 * lev, "decompose:recompose", "%s at %d", d, i)) break; }
  if (c.idx % 97 == 5) c.sample("%s seasonal[0]=%.8g oracle %.8Lg", d, s[0], S[0]);
}
void run_case(vf::Ctx &c) {
  vf::Rng &r = c.rng; int f = r.chance(0.7) ? r.irange(2, 13) : r.irange(2, 30); int N = r.irange(2 * f, r.chance(0.3) ? 2 * f + 30 : 2 * f + 180); if (N < 8) N = 8;
  Vec x = gen::series(r, N, r.chance(0.8) ? f : 0); if (r.chance(0.5)) gen::affine(x, r.range(-100, 100), std::pow(10.0, r.range(-2, 2)));
  c.mixv(x); c.mix(f); c.nontrivial(); int k = r.irange(0, 9); if (k < 5) do_stl(c, x, f); else if (k < 8) { if (N >= 12) do_mstl(c, x); } else if (N - 2 * (f / 2) >= f) do_decompose(c, x, f);
}
