// Harness core: seeded cases, three-valued verdicts, counters. Header-only so that every
// sanitizer flavour instruments it together with the library.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <vector>
#include <algorithm>

typedef long double LD;
static inline long double vf_lgammal(long double x) { int s; return lgammal_r(x, &s); }   // plain lgammal writes the global signgam
#define lgammal vf_lgammal
typedef std::vector<double> Vec;
typedef std::vector<LD> LVec;

namespace vf {

struct Rng {
  uint64_t s[4];
  static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { for (int i = 0; i < 4; i++) s[i] = sm(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double a, double b) { return a + (b - a) * u(); }
  int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool chance(double p) { return u() < p; }
  double norm() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2.0 * std::log(a)) * std::cos(6.283185307179586 * b); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// Flavours in which only the sanitizer/ledger judges compile with VF_NO_ORACLE=1.
#ifndef VF_NO_ORACLE
#define VF_NO_ORACLE 0
#endif

struct Ctx {
  uint64_t seed = 1, idx = 0;
  int tier = 0;                 // 0 quick, 1 thorough
  Rng rng{1};
  // --- statistics for the evidence
  uint64_t checks = 0;          // oracle comparisons evaluated
  uint64_t nontriv_case = 0;    // flag: this case counted as non-trivial
  uint64_t sig = 1469598103934665603ull;
  uint64_t outhash = 0xcbf29ce484222325ull;   // every library output seen by this case, bit for bit
  uint64_t nouts = 0;
  void out(double d) { uint64_t v; if (d != d) v = 0x7ff8dead; else { d += 0.0; memcpy(&v, &d, 8); } nouts++; outhash = (outhash ^ v) * 0x100000001b3ull; outhash ^= outhash >> 31; }
  void outi(long long i) { out((double)i); }
  void outv(const double *p, int n) { for (int i = 0; i < n; i++) out(p[i]); }
  void mix(uint64_t v) { sig = (sig ^ v) * 1099511628211ull; sig ^= sig >> 29; }
  void mixd(double d) { uint64_t v; memcpy(&v, &d, 8); mix(v); }
  void mixv(const Vec &v) { for (double d : v) mixd(d); }
  void nontrivial() { nontriv_case = 1; }
  void hit(const char *tag);                       // coverage counter
  void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void inconclusive(const char *key);
  // capture mode (see confirmed()): oracle failures are collected instead of reported
  bool capture = false;
  struct Cap { char key[128], msg[400]; };
  std::vector<Cap> cap;
  bool ok(bool cond, const char *key, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
  // |a-b| <= rtol*max(|a|,|b|,scale)
  bool close(const char *key, double got, double want, double rtol, double scale, const char *what = "");
  bool closev(const char *key, const double *got, const double *want, int n, double rtol, double scale, const char *what = "");
};

Ctx &ctx();

// Judgements that depend on where a numerical optimiser stops. judge(0) judges the case itself; when it
// objects, judge(1..5) re-judges the same case with the series perturbed by noise of
// 5% of the size of its differences, and only an objection that at least three of the five repeat is a violation: an isolated early stop of the optimiser
// does not survive the perturbation, wrong arithmetic does.
template <class F> void confirmed(Ctx &c, F judge) {
  Rng r0 = c.rng; c.capture = true; c.cap.clear(); judge(0);
  std::vector<Ctx::Cap> first; first.swap(c.cap); std::vector<int> n(first.size(), 0);
  if (!first.empty()) for (int k = 1; k <= 5; k++) {
    c.rng = r0; c.cap.clear(); judge(k);
    for (size_t i = 0; i < first.size(); i++) for (auto &x : c.cap) if (!strcmp(x.key, first[i].key)) { n[i]++; break; }
  }
  c.capture = false; c.cap.clear();
  for (size_t i = 0; i < first.size(); i++) { if (n[i] >= 3) c.fail(first[i].key, "%s [%d of 5 perturbed copies too]", first[i].msg, n[i]); else { c.hit("objection-not-confirmed"); if (getenv("VF_DBG")) fprintf(stderr, "unconfirmed %d/5 case %llu %s %s\n", n[i], (unsigned long long)c.idx, first[i].key, first[i].msg); } }
}
// Caller-owned input array: snapshot taken at construction, compared by check() (property C05).
// Exact-size heap allocation so that AddressSanitizer sees any overread.
struct In {
  double *p; int n; std::vector<double> snap; const char *name; bool done = false;
  In(const Vec &v, const char *nm) : p((double *)malloc(sizeof(double) * (v.size() ? v.size() : 1))), n((int)v.size()), snap(v), name(nm) { if (n) memcpy(p, v.data(), sizeof(double) * n); }
  In(const In &) = delete; In &operator=(const In &) = delete;
  operator double *() { return p; }
  void check() {
    if (done) return;
    done = true; ctx().checks++;
    for (int i = 0; i < n; i++) if (memcmp(&p[i], &snap[i], 8) != 0) {
      char key[128]; snprintf(key, sizeof key, "io:input-modified:%s", name);
      ctx().fail(key, "input %s[%d/%d] changed from %.17g to %.17g", name, i, n, snap[i], p[i]); break; }
  }
  ~In() { check(); free(p); }
};
// Caller-owned output array. Under ASan: exact heap block; otherwise guard words on both sides.
#if defined(__SANITIZE_ADDRESS__) || defined(VF_EXACT)
#define VF_GUARD 0
#else
#define VF_GUARD 8
#endif
struct Out {
  double *base, *p; int n; const char *name;
  static double gv(int i) { return -7.25e-77 * (i + 1); }
  Out(int n_, const char *nm) : n(n_), name(nm) {
    base = (double *)malloc(sizeof(double) * (n + 2 * VF_GUARD + (n + VF_GUARD == 0)));
    p = base + VF_GUARD;
    for (int i = 0; i < VF_GUARD; i++) { base[i] = gv(i); p[n + i] = gv(i + 50); }
  }
  Out(const Out &) = delete; Out &operator=(const Out &) = delete;
  operator double *() { return p; }
  void fill(double v) { for (int i = 0; i < n; i++) p[i] = v; }
  Vec vec() const { return Vec(p, p + n); }
  ~Out() {
    if (VF_GUARD) { ctx().checks++;
      for (int i = 0; i < VF_GUARD; i++) {
        double a = gv(i), b = gv(i + 50);
        if (memcmp(&base[i], &a, 8) || memcmp(&p[n + i], &b, 8)) {
          char key[128]; snprintf(key, sizeof key, "io:output-overrun:%s", name);
          ctx().fail(key, "guard word %d around output %s[%d] overwritten", i, name, n); break; } } }
    free(base);
  }
};
}  // namespace vf
using vf::In; using vf::Out;

// Release memory that the library handed to the caller.
extern "C" void vf_lib_free(void *);

// Each driver translation unit provides these.
void run_case(vf::Ctx &c);
extern const char *vf_driver_name;
