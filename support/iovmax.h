#define _GNU_SOURCE
#include <limits.h>
#ifdef VERIF_IOV_MAX
#undef IOV_MAX
#define IOV_MAX VERIF_IOV_MAX
#endif
