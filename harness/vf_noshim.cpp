#include <stdlib.h>
extern "C" void vf_lib_free(void *p) { free(p); }
