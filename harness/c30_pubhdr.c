/* What a program compiled against the public header reads from an object. */
#include "header/ctsa.h"
#include "c30_fields.h"
#define RD_I(f) v[n++] = (double)o->f;
#define RD_D(f) v[n++] = o->f;
#define RD_P(f) p[k++] = (const void *)o->f;
#define READER(name, type, F) int pub_##name(const void *x, double *v, const void **p, int *np) { const struct type *o = (const struct type *)x; int n = 0, k = 0; F(RD_I, RD_D, RD_P) *np = k; return n; }
READER(arima, arima_set, F_ARIMA)
READER(sarima, sarima_set, F_SARIMA)
READER(sarimax, sarimax_set, F_SARIMAX)
READER(auto, auto_arima_set, F_AUTO)
READER(ar, ar_set, F_AR)
