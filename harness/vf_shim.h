/* Force-included when the *library* is compiled: routes its heap use through the shim so that
   leaks, double frees and dependence on heap contents become observable. */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc(size_t); void *vf_calloc(size_t, size_t); void *vf_realloc(void *, size_t); void vf_free(void *);
#ifdef __cplusplus
}
#endif
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#endif
