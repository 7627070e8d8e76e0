// Allocation shim: heap fill patterns (property C03) and a ledger of live blocks (property C04).
#include "vf.h"
#include <pthread.h>
#include <execinfo.h>
extern int vf_heap_fill;
namespace {
struct Hdr { uint64_t magic; size_t size; uint64_t serial; Hdr *prev, *next; void *ra; void *ra2; uint64_t pad; };  // 64 bytes
const uint64_t LIVE = 0x4c4956454c495645ull, DEAD = 0x4445414444454144ull;
Hdr head = {0, 0, 0, &head, &head, 0, 0, 0};
uint64_t serial = 0, nalloc = 0, nfree = 0;
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
thread_local uint64_t scramble = 88172645463325252ull;
}
static void dofill(void *p, size_t n) {
  if (vf_heap_fill < 0) return;
  if (vf_heap_fill == 0x7f) { uint64_t *q = (uint64_t *)p; for (size_t i = 0; i < n / 8; i++) { scramble ^= scramble << 13; scramble ^= scramble >> 7; scramble ^= scramble << 17; q[i] = scramble; } memset((char *)p + n / 8 * 8, 0x7f, n % 8); }
  else memset(p, vf_heap_fill, n);
}
static void *put(size_t n, void *ra) {
  Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n);
  if (!h) return 0;
  h->magic = LIVE; h->size = n; h->ra = ra; h->ra2 = 0;
  pthread_mutex_lock(&mu);
  h->serial = ++serial; nalloc++; h->prev = &head; h->next = head.next; head.next->prev = h; head.next = h;
  pthread_mutex_unlock(&mu);
  return h + 1;
}
extern "C" {
void *vf_malloc(size_t n) { void *p = put(n, __builtin_return_address(0)); if (p) dofill(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { void *p = put(a * b, __builtin_return_address(0)); if (p) memset(p, 0, a * b); return p; }
void vf_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == DEAD) { vf::ctx().fail("leak:double-free", "block freed twice"); return; }
  if (h->magic != LIVE) { vf::ctx().fail("leak:invalid-free", "free of a pointer the library never obtained"); return; }
  pthread_mutex_lock(&mu);
  h->prev->next = h->next; h->next->prev = h->prev; h->magic = DEAD; nfree++;
  pthread_mutex_unlock(&mu);
  if (vf_heap_fill >= 0) memset(p, 0xdd, h->size);
  free(h);
}
void *vf_realloc(void *p, size_t n) {
  if (!p) return vf_malloc(n);
  Hdr *h = (Hdr *)p - 1; void *q = put(n, __builtin_return_address(0));
  if (q) { dofill(q, n); memcpy(q, p, n < h->size ? n : h->size); vf_free(p); }
  return q;
}
void vf_lib_free(void *p) { vf_free(p); }
#ifdef VF_LEDGER
static uint64_t mark = 0, a0 = 0;
void vf_ledger_begin() { mark = serial; a0 = nalloc; }
void vf_ledger_end(vf::Ctx *c) {
  size_t blocks = 0, bytes = 0; char where[512]; size_t w = 0; where[0] = 0; void *seen[6]; int ns = 0;
  for (Hdr *h = head.next; h != &head;) {
    Hdr *nx = h->next;
    if (h->serial > mark) {
      blocks++; bytes += h->size;
      bool dup = false; for (int i = 0; i < ns; i++) dup |= seen[i] == h->ra;
      if (!dup && ns < 6) { seen[ns++] = h->ra; char **s = backtrace_symbols(&h->ra, 1); const char *b = s ? strrchr(s[0], '(') : 0;
        char nm[64] = "?"; if (b) { size_t k = 0; for (b++; *b && *b != '+' && *b != ')' && k < 60; b++) nm[k++] = *b; nm[k] = 0; }
        w += snprintf(where + w, sizeof where - w, "%s%s", w ? "," : "", nm); free(s); }
      // drop it so that it is reported once
      h->prev->next = h->next; h->next->prev = h->prev; free(h);
    }
    h = nx;
  }
  c->out((double)(nalloc - a0));
  char tag[32]; snprintf(tag, sizeof tag, "lib-allocations"); if (nalloc != a0) c->hit(tag);
  if (blocks) { char key[600]; snprintf(key, sizeof key, "leak:%s", where); c->fail(key, "%zu blocks, %zu bytes still allocated after the life cycle; allocated in %s", blocks, bytes, where); }
}
#endif
}
