// Driver main: runs cases idx = start, start+step, ... < end; writes events to --out as JSON lines.
#include "vf.h"
#include <csignal>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>

namespace vf {
struct Tag { char name[96]; uint64_t n; };
static Tag *tags; static int ntags = 0;
static const int MAXTAGS = 4096;
static FILE *outf = nullptr;
static uint64_t *statefile = nullptr;   // [0]=current idx+1, [1]=finished
static thread_local Ctx G;
Ctx &ctx() { return G; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static bool quiet = false;   // replay runs: statistics and verdicts of the first run only
static int nfail = 0, nsample = 0;
static uint64_t *sigs; static size_t nsigs = 0, capsigs = 0;

static void jesc(FILE *f, const char *s) {
  for (; *s; ++s) { unsigned char ch = *s; if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch); else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch); else fputc(ch, f); }
}
struct Lock { Lock() { pthread_mutex_lock(&mu); } ~Lock() { pthread_mutex_unlock(&mu); } };
void Ctx::hit(const char *tag) {
  if (quiet) return;
  Lock l;
  for (int i = 0; i < ntags; i++) if (!strcmp(tags[i].name, tag)) { tags[i].n++; return; }
  if (ntags < MAXTAGS) { snprintf(tags[ntags].name, sizeof tags[0].name, "%s", tag); tags[ntags].n = 1; ntags++; }
}
static void emit(const char *type, const char *key, const char *msg) {
  Lock l;
  fprintf(outf, "{\"t\":\"%s\",\"case\":%llu,\"key\":\"", type, (unsigned long long)G.idx);
  jesc(outf, key); fprintf(outf, "\",\"msg\":\""); jesc(outf, msg); fprintf(outf, "\"}\n"); fflush(outf);
}
void Ctx::sample(const char *fmt, ...) {
  if (quiet || nsample >= 4) return;
  nsample++;
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  emit("sample", "", buf);
}
void Ctx::fail(const char *key, const char *fmt, ...) {
#if VF_NO_ORACLE
  (void)key; (void)fmt; return;
#else
  if (quiet) return;
  if (capture && strncmp(key, "io:", 3)) {
    Cap x; snprintf(x.key, sizeof x.key, "%s", key); va_list ap; va_start(ap, fmt); vsnprintf(x.msg, sizeof x.msg, fmt, ap); va_end(ap); cap.push_back(x); return;
  }
  if (nfail++ >= 400) return;
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  emit("violation", key, buf);
#endif
}
void Ctx::inconclusive(const char *key) { char b[120]; snprintf(b, sizeof b, "inconclusive:%s", key); hit(b); }
bool Ctx::ok(bool cond, const char *key, const char *fmt, ...) {
  checks++;
  if (!cond) { char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); fail(key, "%s", buf); }
  return cond;
}
bool Ctx::close(const char *key, double got, double want, double rtol, double scale, const char *what) {
  checks++; out(got);
  double m = std::max(std::max(std::fabs(got), std::fabs(want)), std::fabs(scale));
  if (std::fabs(got - want) <= rtol * m) return true;   // false for NaN
  if (std::isnan(got) && std::isnan(want)) return true;
  if (std::isinf(got) && got == want) return true;
  fail(key, "%s got %.17g want %.17g (rtol %g scale %g)", what, got, want, rtol, scale);
  return false;
}
bool Ctx::closev(const char *key, const double *got, const double *want, int n, double rtol, double scale, const char *what) {
  for (int i = 0; i < n; i++) {
    char w[160]; snprintf(w, sizeof w, "%s[%d/%d]", what, i, n);
    if (!close(key, got[i], want[i], rtol, scale, w)) return false;
  }
  return true;
}
static volatile sig_atomic_t libexit_guard = 1;
static void on_exit_hook() {
  if (libexit_guard) { _exit(77); }   // the library ended the process
}
static void on_cpu(int) { _exit(99); }
}  // namespace vf

using namespace vf;

int vf_heap_fill = -1;   // used by the allocation shim
extern "C" __attribute__((weak)) void vf_ledger_begin();
extern "C" __attribute__((weak)) void vf_ledger_end(vf::Ctx *);

static void begin_case(uint64_t seed, uint64_t idx, int tier) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull ^ (idx + 0x1234567) * 0xD1B54A32D192ED03ull;
  G = Ctx(); G.seed = seed; G.idx = idx; G.tier = tier; G.rng = Rng(h);
}
static void arm(double cpu) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)cpu; it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
  setitimer(ITIMER_VIRTUAL, &it, 0);
}
struct Par { std::vector<uint64_t> *ids; std::vector<uint64_t> hash, outs; uint64_t seed; int tier; size_t next; };
static void *par_worker(void *a) {
  Par *p = (Par *)a;
  for (;;) {
    size_t k; { Lock l; k = p->next++; }
    if (k >= p->ids->size()) return 0;
    begin_case(p->seed, (*p->ids)[k], p->tier);
    run_case(G);
    { Lock l; p->hash[k] = G.outhash; p->outs[k] = G.nouts; }
  }
}

int main(int argc, char **argv) {
  uint64_t seed = 1, start = 0, end = 1, step = 1; const char *out = nullptr, *state = nullptr; int tier = 0; double cpu = 60; const char *mode = "";
  for (int i = 1; i + 1 < argc; i += 2) {
    const char *a = argv[i], *v = argv[i + 1];
    if (!strcmp(a, "--seed")) seed = strtoull(v, 0, 10);
    else if (!strcmp(a, "--start")) start = strtoull(v, 0, 10);
    else if (!strcmp(a, "--end")) end = strtoull(v, 0, 10);
    else if (!strcmp(a, "--step")) step = strtoull(v, 0, 10);
    else if (!strcmp(a, "--out")) out = v;
    else if (!strcmp(a, "--state")) state = v;
    else if (!strcmp(a, "--mode")) mode = v;
    else if (!strcmp(a, "--tier")) tier = atoi(v);
    else if (!strcmp(a, "--cpu")) cpu = atof(v);
  }
  outf = out ? fopen(out, "a") : stderr;
  if (!outf) { fprintf(stderr, "cannot open out\n"); return 2; }
  tags = (Tag *)calloc(MAXTAGS, sizeof(Tag));
  capsigs = (size_t)((end - start) / step + 2); sigs = (uint64_t *)calloc(capsigs, 8);
  uint64_t dummy[2] = {0, 0}; statefile = dummy;
  if (state) {
    int fd = open(state, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 16)) return 2;
    void *m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 2;
    statefile = (uint64_t *)m; close(fd);
  }
  // The library prints to stdout; keep it out of the way.
  if (!getenv("VF_KEEP_STDOUT")) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { fflush(stdout); dup2(nul, 1); close(nul); } }
  atexit(on_exit_hook);
  signal(SIGVTALRM, on_cpu);
  uint64_t ran = 0, nontriv = 0, checks = 0, outs = 0;
  std::vector<uint64_t> hashes;
  if (!strcmp(mode, "threads")) {
    // Phase 1: concurrent; phase 2: sequential replay with bitwise comparison.
    std::vector<uint64_t> ids; for (uint64_t i = start; i < end; i += step) ids.push_back(i);
    Par par; par.ids = &ids; par.hash.assign(ids.size(), 0); par.outs.assign(ids.size(), 0); par.seed = seed; par.tier = tier; par.next = 0;
    statefile[0] = start + 1;
    arm(cpu);
    std::vector<pthread_t> th(8);
    for (auto &t : th) pthread_create(&t, 0, par_worker, &par);
    for (auto &t : th) pthread_join(t, 0);
    quiet = true;
    for (size_t k = 0; k < ids.size(); k++) {
      statefile[0] = ids[k] + 1;
      begin_case(seed, ids[k], tier); arm(cpu); run_case(G); arm(0);
      quiet = false; checks++;
      if (G.outhash != par.hash[k] || G.nouts != par.outs[k]) G.fail("par:result-differs", "concurrent run observed %llu outputs hash %016llx, sequential run %llu outputs hash %016llx", (unsigned long long)par.outs[k], (unsigned long long)par.hash[k], (unsigned long long)G.nouts, (unsigned long long)G.outhash);
      quiet = true;
      ran++; outs += G.nouts;
      if (G.nontriv_case && nsigs < capsigs) { sigs[nsigs++] = G.sig; nontriv++; }
    }
    quiet = false;
  } else if (!strcmp(mode, "pure")) {
    // Each case: once with heap fill A, then (after an unrelated case, i.e. another history) with fill B.
    for (uint64_t idx = start; idx < end; idx += step) {
      statefile[0] = idx + 1;
      vf_heap_fill = 0x00;
      begin_case(seed, idx, tier); arm(cpu); run_case(G); arm(0);
      uint64_t h1 = G.outhash, n1 = G.nouts; bool nt = G.nontriv_case; uint64_t sg = G.sig;
      quiet = true;
      vf_heap_fill = 0x7f;
      begin_case(seed, idx + 1000003, tier); arm(cpu); run_case(G); arm(0);
      vf_heap_fill = (idx & 1) ? 0xff : 0x3f;
      begin_case(seed, idx, tier); arm(cpu); run_case(G); arm(0);
      quiet = false;
      vf_heap_fill = -1;
      checks++;
      if (G.outhash != h1 || G.nouts != n1) G.fail("pure:result-depends-on-heap-or-history", "same case gave %llu outputs hash %016llx and then %llu outputs hash %016llx", (unsigned long long)n1, (unsigned long long)h1, (unsigned long long)G.nouts, (unsigned long long)G.outhash);
      ran++; outs += n1;
      if (nt && nsigs < capsigs) { sigs[nsigs++] = sg; nontriv++; }
    }
  } else {
    for (uint64_t idx = start; idx < end; idx += step) {
      statefile[0] = idx + 1;
      begin_case(seed, idx, tier);
      if (vf_ledger_begin) vf_ledger_begin();
      arm(cpu); run_case(G); arm(0);
      if (vf_ledger_end) { checks++; vf_ledger_end(&G); }
      ran++; checks += G.checks; outs += G.nouts;
      if (G.nontriv_case && nsigs < capsigs) { sigs[nsigs++] = G.sig; nontriv++; }
    }
  }
  libexit_guard = 0;
  std::sort(sigs, sigs + nsigs);
  if (out) { char sp[600]; snprintf(sp, sizeof sp, "%s.sig", out); FILE *sf = fopen(sp, "ab"); if (sf) { fwrite(sigs, 8, nsigs, sf); fclose(sf); } }
  uint64_t distinct = 0; for (size_t i = 0; i < nsigs; i++) if (i == 0 || sigs[i] != sigs[i - 1]) distinct++;
  fprintf(outf, "{\"t\":\"stats\",\"ran\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"outs\":%llu,\"distinct\":%llu,\"tags\":{", (unsigned long long)ran, (unsigned long long)checks, (unsigned long long)nontriv, (unsigned long long)outs, (unsigned long long)distinct);
  for (int i = 0; i < ntags; i++) { fprintf(outf, "%s\"", i ? "," : ""); jesc(outf, tags[i].name); fprintf(outf, "\":%llu", (unsigned long long)tags[i].n); }
  fprintf(outf, "}}\n"); fflush(outf);
  statefile[1] = 1;
  fclose(outf); free(tags); free(sigs);
  return 0;
}
