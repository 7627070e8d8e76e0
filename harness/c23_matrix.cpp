// C23: dense matrix kernels: products, transposes, LU, QR, Cholesky, SVD, rank, eigenvalues, reflectors.
#include "vf.h"
#include "gen.h"
extern "C" {
#include "matrix.h"
}
const char *vf_driver_name = "c23_matrix";
namespace {
struct Mx { int m, n; Vec a; Mx(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, 0.0) {} double &operator()(int i, int j) { return a[(size_t)i * n + j]; } double operator()(int i, int j) const { return a[(size_t)i * n + j]; } };
Mx mk(vf::Rng &r, int m, int n, std::string *nm = nullptr) {
  Mx A(m, n); int k = r.irange(0, 8); const char *d = "gauss"; double sc = std::pow(10.0, r.irange(-4, 4));
  for (auto &v : A.a) v = r.norm();
  if (k == 1) { d = "integers"; for (auto &v : A.a) v = r.irange(-3, 3); }
  if (k == 2) { d = "sparse"; for (auto &v : A.a) if (r.chance(0.7)) v = 0; }
  if (k == 3) { d = "lowrank"; int q = r.chance(0.3) ? 1 : r.irange(1, std::max(1, std::min(m, n) - 1)); Mx B(m, q), C(q, n); for (auto &v : B.a) v = r.irange(-2, 2); for (auto &v : C.a) v = r.irange(-2, 2); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int l = 0; l < q; l++) s += B(i, l) * C(l, j); A(i, j) = s; } }
  if (k == 4) { d = "rowscaled"; for (int i = 0; i < m; i++) { double s = std::pow(10.0, r.range(-3, 3)); for (int j = 0; j < n; j++) A(i, j) *= s; } }
  if (k == 5) { d = "triangular"; bool up = r.chance(0.5); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (up ? i > j : i < j) A(i, j) = 0; }
  if (k == 6) { d = "negative diagonal"; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i != j) A(i, j) = 0; else A(i, j) = -std::fabs(A(i, j)) - 0.1; }
  if (k == 7) { d = "permuted"; std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = i; for (int i = m - 1; i > 0; i--) std::swap(p[i], p[r.irange(0, i)]); for (auto &v : A.a) v = 0; for (int i = 0; i < m; i++) if (p[i] < n) A(i, p[i]) = r.chance(0.5) ? -1 : 2; }
  if (r.chance(0.4)) for (auto &v : A.a) v *= sc;
  if (nm) *nm = d; return A;
}
LD mx(const Vec &a) { LD s = 0; for (double v : a) s = std::max(s, fabsl((LD)v)); return s; }
LD fro(const Vec &a) { LD s = 0; for (double v : a) s += (LD)v * v; return sqrtl(s); }
// |A*B - C| elementwise, A m x k, B k x n (accessors)
template <class FA, class FB, class FC> LD prodres(int m, int k, int n, FA A, FB B, FC C) { LD w = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD s = 0; for (int l = 0; l < k; l++) s += (LD)A(i, l) * B(l, j); LD e = fabsl(s - C(i, j)); if (!(e <= w)) w = e; } return w; }
template <class FQ> LD orth(int m, int n, FQ Q) { return prodres(n, m, n, [&](int i, int j) { return Q(j, i); }, Q, [](int i, int j) { return i == j ? 1.0 : 0.0; }); }
int dim(vf::Rng &r, int tier, int big) { return r.chance(0.12) ? r.irange(1, 3) : r.chance(0.15) ? r.irange(30, tier ? 2 * big : big) : r.irange(1, 24); }
}
static void products(vf::Ctx &c) {
  vf::Rng &r = c.rng; int m = dim(r, c.tier, 120), n = dim(r, c.tier, 120), p = dim(r, c.tier, 120); if (r.chance(0.08)) { m = 1; p = 1; n = r.irange(90, 600); } if (r.chance(0.05)) { n = 1; m = r.irange(40, 200); p = r.irange(40, 200); }
  std::string s; Mx A = mk(r, m, n, &s), B = mk(r, n, p); c.mixv(A.a); c.mixv(B.a); In ai(A.a, "A"), bi(B.a, "B"); char d[90]; snprintf(d, sizeof d, "%dx%d times %dx%d (%s)", m, n, n, p, s.c_str());
  std::vector<LD> W((size_t)m * p, 0); for (int i = 0; i < m; i++) for (int l = 0; l < n; l++) { LD a = A(i, l); for (int j = 0; j < p; j++) W[(size_t)i * p + j] += a * B(l, j); }
  LD tol = 1e-14L * n * mx(A.a) * mx(B.a); int big = m + n + p > 192; c.hit(big ? "product:big" : "product:small");
  struct { const char *nm; void (*f)(double *, double *, double *, int, int, int); LD k; } F[] = {{"nmult", nmult, 1}, {"tmult", tmult, 1}, {"rmult", rmult, 1}, {"smult", smult, 300}, {"mmult", mmult, 300}};
  for (auto &f : F) { Out o(m * p, "product"); f.f(ai, bi, o, m, n, p); c.outv(o, m * p); for (int i = 0; i < m * p; i++) if (!c.ok(fabsl(o[i] - W[i]) <= f.k * tol, f.nm, "%s entry %d got %.15g want %.15Lg", d, i, o[i], W[i])) break; }
  // transposes
  { struct { const char *nm; void (*f)(double *, int, int, double *); } T[] = {{"dtranspose", dtranspose}, {"stranspose", stranspose}, {"ctranspose", ctranspose}, {"mtranspose", mtranspose}}; for (auto &t : T) { Out o(m * n, "transpose"); o.fill(1e99); t.f(ai, m, n, o); c.outv(o, m * n); bool g = true; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) g = g && o[j * m + i] == A(i, j); c.ok(g, t.nm, "%dx%d", m, n); }
    Out o(m * n, "transpose"); o.fill(1e99); rtranspose(ai, m, n, o, m, n); bool g = true; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) g = g && o[j * m + i] == A(i, j); c.ok(g, "rtranspose", "%dx%d", m, n);
    Out q(m * n, "transpose"); memcpy(q.p, A.a.data(), 8 * m * n); itranspose(q, m, n); g = true; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) g = g && q[j * m + i] == A(i, j); c.ok(g, "itranspose", "%dx%d", m, n); }
  { Mx D = mk(r, m, n); In di(D.a, "B"); Out o(m * n, "sum"), q(m * n, "difference"), z(m * n, "scaled"); madd(ai, di, o, m, n); msub(ai, di, q, m, n); double al = r.norm(); memcpy(z.p, A.a.data(), 8 * m * n); scale(z, m, n, al); bool g = true, h = true, k = true; for (int i = 0; i < m * n; i++) { g = g && o[i] == A.a[i] + D.a[i]; h = h && q[i] == A.a[i] - D.a[i]; k = k && z[i] == al * A.a[i]; } c.ok(g, "madd", "%dx%d", m, n); c.ok(h, "msub", "%dx%d", m, n); c.ok(k, "scale", "%dx%d", m, n);
    int zr = r.irange(0, 5), zc = r.irange(0, 5), R = m + zr, C = n + zc; Out y(R * C, "padded"), x(m * n, "unpadded"); add_zero_pad(ai, m, n, zr, zc, y); bool e = true; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) e = e && y[i * C + j] == (i < m && j < n ? A(i, j) : 0.0); c.ok(e, "add_zero_pad", "%dx%d pad %d %d", m, n, zr, zc); remove_zero_pad(y, R, C, zr, zc, x); c.ok(!memcmp(x.p, A.a.data(), 8 * m * n), "remove_zero_pad", "%dx%d pad %d %d", m, n, zr, zc); }
  { int N = m * n; std::vector<int> P(N), Q(N); sort1d(ai, N, P.data()); sort1d_ascending(ai, N, Q.data()); bool g = true; std::vector<char> s1(N, 0), s2(N, 0); for (int i = 0; i < N; i++) { g = g && P[i] >= 0 && P[i] < N && Q[i] >= 0 && Q[i] < N; if (!g) break; s1[P[i]] = s2[Q[i]] = 1; if (i) g = g && A.a[P[i]] <= A.a[P[i - 1]] && A.a[Q[i]] >= A.a[Q[i - 1]]; } for (int i = 0; i < N; i++) g = g && s1[i] && s2[i]; c.ok(g, "sort1d", "%d values", N);
    c.ok(array_max(ai, N) == *std::max_element(A.a.begin(), A.a.end()) && array_min(ai, N) == *std::min_element(A.a.begin(), A.a.end()) && array_max_abs(ai, N) == (double)mx(A.a), "array_max", "%d values", N); c.close("l2norm", l2norm(ai, N), (double)fro(A.a), 1e-13 + 1.2e-16 * N, 0); }
  int e = r.irange(1, 12); Out I(e * e, "identity"), L(e * e, "identity"); eye(I, e); eye_scale(L, e, 2.5); bool g = true; for (int i = 0; i < e; i++) for (int j = 0; j < e; j++) g = g && I[i * e + j] == (i == j) && L[i * e + j] == 2.5 * (i == j); c.ok(g, "eye", "%d", e);
}
static void lu(vf::Ctx &c) {
  vf::Rng &r = c.rng; int m = dim(r, c.tier, 70), n = r.chance(0.6) ? m : dim(r, c.tier, 70); std::string s; Mx A = mk(r, m, n, &s); c.mixv(A.a); c.mix(n); char d[80]; snprintf(d, sizeof d, "%dx%d %s", m, n, s.c_str()); c.hit(m == n ? "lu:square" : m > n ? "lu:tall" : "lu:wide"); int K = std::min(m, n); LD am = mx(A.a);
  Vec F = A.a; std::vector<int> ip(m, -7); if (m == n && r.chance(0.5)) ludecomp(F.data(), n, ip.data()); else c.ok(rludecomp(F.data(), m, n, ip.data()) == 0, "rludecomp:return", "%s", d); c.outv(F.data(), m * n);
  std::vector<char> seen(m, 0); bool perm = true; for (int v : ip) { if (v < 0 || v >= m || seen[v]) perm = false; else seen[v] = 1; } if (!c.ok(perm, "lu:permutation", "%s pivot vector is not a permutation", d)) return;
  Out P(m * m, "P"), L(m * K, "L"), U(K * n, "U"); P.fill(9); L.fill(9); U.fill(9); In fi(F, "factors"); getPLU(fi, m, n, ip.data(), P, L, U); LD gr = am; for (int i = 0; i < K * n; i++) gr = std::max(gr, fabsl((LD)U[i]));
  bool st = true; for (int i = 0; i < m; i++) for (int j = 0; j < K; j++) st = st && (i == j ? L[i * K + j] == 1 : i < j ? L[i * K + j] == 0 : std::fabs(L[i * K + j]) <= 1 + 1e-14); c.ok(st, "lu:L", "%s L is not unit lower triangular with multipliers at most one", d); st = true; for (int i = 0; i < K; i++) for (int j = 0; j < n && j < i; j++) st = st && U[i * n + j] == 0; c.ok(st, "lu:U", "%s U is not upper triangular", d);
  bool pp = true; for (int i = 0; i < m; i++) { int one = 0; for (int j = 0; j < m; j++) { double v = P[i * m + j]; if (v != 0 && v != 1) pp = false; one += v == 1; } pp = pp && one == 1; } c.ok(pp, "lu:P", "%s P is not a permutation matrix", d);
  std::vector<int> row(m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (P[i * m + j] == 1) row[i] = j;
  LD e = prodres(m, K, n, [&](int i, int j) { return L[row[i] * K + j]; }, [&](int i, int j) { return U[i * n + j]; }, [&](int i, int j) { return A(i, j); }); c.ok(e <= 1e-14L * K * gr + 1e-300L, "lu:product", "%s |PLU - A| = %.3Lg (scale %.3Lg)", d, e, gr); if (c.idx % 201 == 5) c.sample("LU %s residual %.3Lg", d, e);
  { Out PL(m * K, "PL"), U2(K * n, "U"); U2.fill(9); getPU(fi, m, n, ip.data(), PL, U2); LD e2 = prodres(m, K, n, [&](int i, int j) { return PL[i * K + j]; }, [&](int i, int j) { return U2[i * n + j]; }, [&](int i, int j) { return A(i, j); }); c.ok(e2 <= 1e-14L * K * gr + 1e-300L, "lu:getPU", "%s |PL*U - A| = %.3Lg", d, e2); }
  if (m != n) return; LD um = 1e300L; for (int i = 0; i < n; i++) um = std::min(um, fabsl((LD)U[i * n + i])); if (!(um > 1e-10L * gr)) { c.hit("lu:singular"); return; }
  Vec b(n); for (auto &v : b) v = r.norm() * (double)am; In bi(b, "b"); Out x(n, "x"); linsolve(fi, n, bi, ip.data(), x); c.outv(x, n); for (int i = 0; i < n; i++) { LD q = -(LD)b[i], sc = 0; for (int j = 0; j < n; j++) { q += (LD)A(i, j) * x[j]; } for (int k = 0; k < n; k++) { LD t = 0; for (int j = k; j < n; j++) t += fabsl((LD)U[k * n + j] * x[j]); sc += fabsl((LD)L[row[i] * n + k]) * t; } if (!c.ok(fabsl(q) <= 1e-14L * n * (sc + fabsl((LD)b[i])) + 1e-300L, "linsolve", "%s row %d residual %.3Lg (scale %.3Lg)", d, i, q, sc)) break; }
  Out iv(n * n, "inverse"); minverse(fi, n, ip.data(), iv); c.outv(iv, n * n); for (int k = 0; k < n; k++) { bool good = true; for (int i = 0; i < n; i++) { LD q = -(i == k), sc = 1; for (int j = 0; j < n; j++) q += (LD)A(i, j) * iv[j * n + k]; for (int l = 0; l < n; l++) { LD t = 0; for (int j = l; j < n; j++) t += fabsl((LD)U[l * n + j] * iv[j * n + k]); sc += fabsl((LD)L[row[i] * n + l]) * t; } if (!(good = c.ok(fabsl(q) <= 1e-14L * n * sc, "minverse", "%s entry (%d,%d) of A*inverse off by %.3Lg", d, i, k, q))) break; } if (!good) break; }
}
static void qr(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = dim(r, c.tier, 60), m = r.chance(0.3) ? n : n + r.irange(0, 40); std::string s; Mx A = mk(r, m, n, &s); c.mixv(A.a); c.mix(n); char d[80]; snprintf(d, sizeof d, "%dx%d %s", m, n, s.c_str()); c.hit(m == n ? "qr:square" : "qr:tall");
  Vec F = A.a; Out bv(n, "beta"); qrdecomp(F.data(), m, n, bv); In fi(F, "factors"), bi(bv.vec(), "beta"); Out Q(m * n, "Q"), R(n * n, "R"); Q.fill(9); R.fill(9); getQR(fi, m, n, bi, Q, R); c.outv(Q, m * n); c.outv(R, n * n);
  LD e = prodres(m, n, n, [&](int i, int j) { return Q[i * n + j]; }, [&](int i, int j) { return R[i * n + j]; }, [&](int i, int j) { return A(i, j); }), o = orth(m, n, [&](int i, int j) { return Q[i * n + j]; }); c.ok(e <= 1e-13L * m * mx(A.a) + 1e-300L, "qr:product", "%s |QR - A| = %.3Lg", d, e); c.ok(o <= 1e-13L * m, "qr:orthonormal", "%s |Q'Q - I| = %.3Lg", d, o); bool st = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) st = st && R[i * n + j] == 0; c.ok(st, "qr:R", "%s R is not upper triangular", d);
  // reflectors
  int N = dim(r, c.tier, 200); Vec x(N); for (auto &v : x) v = r.norm(); if (r.chance(0.15)) x[0] = 0; if (r.chance(0.15)) for (int i = 1; i < N; i++) x[i] = 0; if (r.chance(0.2)) x[0] = -std::fabs(x[0]); LD nx = fro(x); if (nx == 0) return; In xi(x, "x"); for (int k = 0; k < 2; k++) { Out v(N, "v"); double be = k ? house_2(xi, N, v) : house(xi, N, v); c.out(be); c.outv(v, N); LD t = 0; for (int i = 0; i < N; i++) t += (LD)v[i] * x[i]; LD w = 0, h0 = 0; for (int i = 0; i < N; i++) { LD h = x[i] - (LD)be * t * v[i]; if (i) w = std::max(w, fabsl(h)); else h0 = h; } const char *nm = k ? "house_2" : "house"; bool good = w <= 1e-13L * N * nx && fabsl((k ? fabsl(h0) : h0) - nx) <= 1e-13L * N * nx; c.ok(good, nm, "N=%d reflected vector has first entry %.15Lg (norm %.15Lg) and largest other entry %.3Lg", N, h0, nx, w);
    if (N <= 30) { Out H(N * N, "H"); housemat(v, N, be, H); c.outv(H, N * N); LD q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) q = std::max(q, fabsl((i == j) - (LD)be * v[i] * v[j] - H[i * N + j])); LD sc = 1 + fabs(be) * mx(v.vec()) * mx(v.vec()); c.ok(q <= 1e-14L * sc, "housemat", "N=%d off by %.3Lg", N, q); } }
}
static void chols(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = dim(r, c.tier, 150); Mx B(n, n), A(n, n); for (auto &v : B.a) v = r.norm(); LD sc = std::pow(10.0, r.irange(-4, 4)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { LD s = 0; for (int l = 0; l < n; l++) s += (LD)B(i, l) * B(j, l); A(i, j) = A(j, i) = (double)(sc * (s / n + (i == j ? 0.05L : 0))); }
  int ind = r.chance(0.4) ? r.irange(0, n - 1) : -1; if (ind >= 0) A(ind, ind) = -(double)sc; int kind = r.irange(0, 2); c.mixv(A.a); char d[80]; snprintf(d, sizeof d, "n=%d routine %d indefinite at %d", n, kind, ind); Vec F = A.a; int rc = kind == 0 ? cholu(F.data(), n) : kind == 1 ? bcholu(F.data(), n) : chol(F.data(), n); c.outi(rc); c.hit(ind >= 0 ? "chol:indefinite" : n > 64 ? "chol:blocked" : "chol:small");
  if (ind >= 0) { c.ok(rc == -1, "chol:not-positive-definite", "%s returned %d", d, rc); return; }
  if (!c.ok(rc == 0, "chol:return", "%s returned %d", d, rc)) return; c.outv(F.data(), n * n); auto U = [&](int i, int j) { return F[i * n + j]; }; bool st = true; for (int i = 0; i < n; i++) { st = st && U(i, i) > 0; for (int j = 0; j < i; j++) st = st && U(i, j) == 0; } c.ok(st, "chol:triangular", "%s", d); LD e = prodres(n, n, n, [&](int i, int j) { return U(j, i); }, U, [&](int i, int j) { return A(i, j); }); c.ok(e <= 1e-13L * n * mx(A.a), "chol:product", "%s |U'U - A| = %.3Lg", d, e);
  Vec G = A.a; chold(G.data(), n); c.outv(G.data(), n * n); auto T = [&](int i, int j) -> LD { return i == j ? 1 : i > j ? 0 : (LD)G[i * n + j]; }; st = true; for (int i = 0; i < n; i++) { st = st && G[i * n + i] > 0; for (int j = 0; j < i; j++) st = st && G[i * n + j] == 0; } c.ok(st, "chold:structure", "%s", d); e = prodres(n, n, n, [&](int i, int j) { return T(j, i) * G[j * n + j]; }, T, [&](int i, int j) { return A(i, j); }); c.ok(e <= 1e-13L * n * mx(A.a), "chold:product", "%s |U'DU - A| = %.3Lg", d, e);
}
static void svds(vf::Ctx &c) {
  vf::Rng &r = c.rng; int m = dim(r, c.tier, 60), n = dim(r, c.tier, 60); if (r.chance(0.3)) n = m; std::string s; Mx A = mk(r, m, n, &s); c.mixv(A.a); c.mix(n); char d[80]; snprintf(d, sizeof d, "%dx%d %s", m, n, s.c_str()); In ai(A.a, "A"); int K = std::min(m, n), L = std::max(m, n); c.hit(m >= n ? "svd:tall" : "svd:wide");
  Out U(m * K, "U"), V(n * K, "V"), q(K, "singular values"); int rc = m >= n ? svd(ai, m, n, U, V, q) : svd_transpose(ai, m, n, U, V, q); c.outi(rc); if (!c.ok(rc == 0, "svd:return", "%s returned %d", d, rc)) return; c.outv(q, K); LD am = fro(A.a);
  bool so = true; for (int i = 0; i < K; i++) so = so && q[i] >= 0 && (!i || q[i] <= q[i - 1]); c.ok(so, "svd:sorted", "%s singular values not sorted and non-negative", d); LD e = prodres(m, K, n, [&](int i, int j) { return (LD)U[i * K + j] * q[j]; }, [&](int i, int j) { return V[j * K + i]; }, [&](int i, int j) { return A(i, j); }), o1 = orth(m, K, [&](int i, int j) { return U[i * K + j]; }), o2 = orth(n, K, [&](int i, int j) { return V[i * K + j]; });
  c.ok(e <= 1e-13L * L * am + 1e-300L, "svd:product", "%s |U S V' - A| = %.3Lg (norm %.3Lg)", d, e, am); c.ok(o1 <= 1e-12L * L, "svd:U", "%s |U'U - I| = %.3Lg", d, o1); c.ok(o2 <= 1e-12L * L, "svd:V", "%s |V'V - I| = %.3Lg", d, o2);
  // rank of a matrix with known rank
  int p = r.irange(1, 20), w = r.irange(1, 20), k = r.irange(0, std::min(p, w)); Mx X(p, w); { Mx B(p, std::max(k, 1)), C(std::max(k, 1), w); for (auto &v : B.a) v = r.norm(); for (auto &v : C.a) v = r.norm(); for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) { B(i, j) = i == j ? 3 : 0.3 * B(i, j); C(i, j) = i == j ? 3 : 0.3 * C(i, j); } } for (int i = 0; i < p; i++) for (int j = 0; j < w; j++) { LD t = 0; for (int l = 0; l < k; l++) t += (LD)(float)B(i, l) * (float)C(l, j); X(i, j) = (double)t; } }
  // smallest non-zero singular value decides whether the numerical rank is unambiguous
  { In xi(X.a, "A"); int g = rank(xi, p, w); c.outi(g); int Kx = std::min(p, w); Out u1(p * Kx, "U"), v1(w * Kx, "V"), q1(Kx, "singular values"); (p >= w ? svd(xi, p, w, u1, v1, q1) : svd_transpose(xi, p, w, u1, v1, q1)); if (k == 0 || (q1[k - 1] > 1e-10 * q1[0] && (k == Kx || q1[k] < 0.5 * DBL_EPSILON * std::max(p, w) * q1[0]))) c.ok(g == k, "rank", "%dx%d rank %d reported %d", p, w, k, g); else { c.hit("rank:ambiguous"); c.ok(g >= k - 1 && g <= Kx, "rank", "%dx%d rank %d reported %d", p, w, k, g); } }
  if (c.idx % 10 == 0 && m >= n && n >= 4) { int Kr = r.irange(1, n / 2), ov = r.irange(0, std::min(4, n - Kr - 1)); Mx Y(m, n); for (int l = 0; l < Kr; l++) { Vec a(m), b(n); for (auto &v : a) v = r.norm(); for (auto &v : b) v = r.norm(); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Y(i, j) += a[i] * b[j]; } In yi(Y.a, "A"); Out u(m * Kr, "U"), v(n * Kr, "V"), S(Kr, "S"); rsvd(yi, m, n, Kr, ov, r.irange(1, 3), u, v, S); c.hit("rsvd"); LD ee = prodres(m, Kr, n, [&](int i, int j) { return (LD)u[i * Kr + j] * S[j]; }, [&](int i, int j) { return v[j * Kr + i]; }, [&](int i, int j) { return Y(i, j); }); c.ok(ee <= 1e-9L * fro(Y.a), "rsvd", "%dx%d rank %d oversample %d |U S V' - A| = %.3Lg of %.3Lg", m, n, Kr, ov, ee, fro(Y.a)); }
}
typedef struct { LD re, im; } CL;
static LD smin(const Mx &A, CL lam) {  // backward error of an eigenvalue: smallest pivot-revealing residual by inverse iteration on (A-lam)^H(A-lam)
  int n = A.n, N = 2 * n; std::vector<LD> G((size_t)N * N); LD sc = fro(A.a) + fabsl(lam.re) + fabsl(lam.im) + 1e-300L; auto B = [&](int i, int j) -> LD { int bi = i / n, bj = j / n, a = i % n, b = j % n; if (bi == bj) return (A(a, b) - (a == b ? lam.re : 0)) / sc; return a == b ? (bi == 0 ? lam.im : -lam.im) / sc : 0; };
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { G[i * N + j] = B(i, j); }
  // QR by Gram-Schmidt free route: solve with tiny shift via LU with full pivoting, track |x| growth
  std::vector<int> cp(N); for (int i = 0; i < N; i++) cp[i] = i; std::vector<LD> M = G; LD last = 1; for (int k = 0; k < N; k++) { int pi = k, pj = k; LD b = -1; for (int i = k; i < N; i++) for (int j = k; j < N; j++) if (fabsl(M[i * N + j]) > b) { b = fabsl(M[i * N + j]); pi = i; pj = j; } if (b < last) last = b; if (b == 0) return 0; if (pi != k) for (int j = 0; j < N; j++) std::swap(M[k * N + j], M[pi * N + j]); if (pj != k) for (int i = 0; i < N; i++) std::swap(M[i * N + k], M[i * N + pj]); for (int i = k + 1; i < N; i++) { LD f = M[i * N + k] / M[k * N + k]; for (int j = k; j < N; j++) M[i * N + j] -= f * M[k * N + j]; } }
  return last;  // within a modest factor of sigma_min / scale
}
static void eigs(vf::Ctx &c) {
  vf::Rng &r = c.rng; int n = r.chance(0.2) ? r.irange(1, 2) : r.irange(1, 12); Mx A(n, n); int k = r.irange(0, 4); const char *nm = "general"; for (auto &v : A.a) v = r.norm();
  if (k == 1) { nm = "symmetric"; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(i, j) = A(j, i); } if (k == 2) { nm = "triangular"; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(i, j) = 0; } if (k == 3) { nm = "companion"; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = i == 0 ? r.norm() : (i == j + 1); } if (k == 4) { nm = "block"; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i / 2 != j / 2) A(i, j) = 0; } double sc = r.chance(0.3) ? std::pow(10.0, r.irange(-4, 4)) : 1; for (auto &v : A.a) v *= sc;
  c.mixv(A.a); char d[60]; snprintf(d, sizeof d, "n=%d %s", n, nm); In ai(A.a, "A"); Out H(n * n, "H"), re(n, "real parts"), im(n, "imaginary parts"); int okk = francis_iter(ai, n, H); c.outi(okk); c.outv(H, n * n); LD nf = fro(A.a);
  { char t[60]; snprintf(t, sizeof t, "eig:%s:%s", nm, okk ? "converged" : "not-converged"); c.hit(t); }
  if (okk) { bool up = true; for (int i = 0; i < n; i++) for (int j = 0; j + 1 < i; j++) up = up && fabsl((LD)H[i * n + j]) <= 1e-11L * nf; c.ok(up, "francis_iter:hessenberg", "%s result is not quasi-triangular", d); re.fill(1e99); im.fill(1e99); eig(ai, n, re, im); c.outv(re, n); c.outv(im, n); LD s1 = 0, t1 = 0, s2 = 0, t2 = 0, mxl = 0, ims = 0; for (int i = 0; i < n; i++) { s1 += re[i]; ims += im[i]; s2 += (LD)re[i] * re[i] - (LD)im[i] * im[i]; t1 += A(i, i); for (int j = 0; j < n; j++) t2 += (LD)A(i, j) * A(j, i); mxl = std::max(mxl, hypotl(re[i], im[i])); } c.ok(fabsl(s1 - t1) <= 1e-10L * nf * n, "eig:trace", "%s sum of eigenvalues %.15Lg trace %.15Lg", d, s1, t1); c.ok(fabsl(s2 - t2) <= 1e-9L * nf * nf * n, "eig:trace2", "%s sum of squares %.15Lg trace of square %.15Lg", d, s2, t2); c.ok(fabsl(ims) <= 1e-10L * nf, "eig:conjugate", "%s imaginary parts sum to %.3Lg", d, ims);
    for (int i = 0; i < n; i++) { LD b = smin(A, {re[i], im[i]}); if (!c.ok(b <= 1e-8L, "eig:backward", "%s eigenvalue %d = %.12g%+.12gi has residual %.3Lg", d, i, re[i], im[i], b)) break; } if (c.idx % 101 == 7) c.sample("eig %s trace %.12Lg vs %.12Lg", d, s1, t1); }
  if (n >= 2) { double a = A(0, 0), b = A(0, 1), p = A(1, 0), q = A(1, 1); double er[2], ei[2]; In a2(A.a, "A"); eig22(a2, n, er, ei); c.outv(er, 2); LD tr = (LD)a + q, de = (LD)a * q - (LD)b * p, ss = fabsl((LD)a) + fabsl((LD)b) + fabsl((LD)p) + fabsl((LD)q); LD disc = tr * tr / 4 - de; if (fabsl(disc) > 1e-6L * ss * ss) { LD w = disc >= 0 ? sqrtl(disc) : 0, v = disc < 0 ? sqrtl(-disc) : 0; LD lo = std::min(er[0], er[1]), hi = std::max(er[0], er[1]), il = std::min(ei[0], ei[1]), ih = std::max(ei[0], ei[1]); c.ok(fabsl(lo - (tr / 2 - w)) <= 1e-10L * ss && fabsl(hi - (tr / 2 + w)) <= 1e-10L * ss && fabsl(il + v) <= 1e-10L * ss && fabsl(ih - v) <= 1e-10L * ss, "eig22", "[%g %g; %g %g] gave %.12g%+.12gi and %.12g%+.12gi", a, b, p, q, er[0], ei[0], er[1], ei[1]); } }
  int N = r.irange(1, 30); Mx S(N, N); for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) S(i, j) = S(j, i) = (r.chance(0.1) ? 0 : r.norm()) * sc; if (r.chance(0.2)) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (std::abs(i - j) > 1) S(i, j) = 0; In si(S.a, "matrix"); Out ev(N, "eigenvalues"), vec(N * N, "eigenvectors"); eigensystem(si, N, ev, vec); c.outv(ev, N); c.outv(vec, N * N); LD e = prodres(N, N, N, [&](int i, int j) { return S(i, j); }, [&](int i, int j) { return vec[i * N + j]; }, [&](int i, int j) { return (LD)vec[i * N + j] * ev[j]; }), o = orth(N, N, [&](int i, int j) { return vec[i * N + j]; }); c.ok(e <= 1e-13L * N * fro(S.a) + 1e-300L, "eigensystem:product", "N=%d |A V - V D| = %.3Lg", N, e); c.ok(o <= 1e-12L * N, "eigensystem:orthonormal", "N=%d |V'V - I| = %.3Lg", N, o);
}
void run_case(vf::Ctx &c) { c.nontrivial(); switch (c.rng.irange(0, 6)) { case 0: products(c); break; case 1: lu(c); break; case 2: qr(c); break; case 3: chols(c); break; case 4: case 5: svds(c); break; default: eigs(c); } }
