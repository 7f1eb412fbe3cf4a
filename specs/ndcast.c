/* A02: element-wise copy of n-dimensional arrays, dlite_type_ndcast() in dlite-type.c */
#include "config.h"
#include "err_stub.h"
#include <stdlib.h>
size_t g_k, g_pos, *g_P; int *g_I;
#include "dlite-type.c"
#define RET __CPROVER_return_value
#define MAXD 3                      /* elements along each dimension */
#define ROOM (ND == 1 ? 64 : ND == 2 ? 128 : 256)
static size_t SD[3], DD[3]; static int SS[3], DS[3];
static char S[ROOM], D[ROOM], D0[ROOM]; 
static char *sp0, *dp0; static size_t g_calls; static char *g_dp; static const char *g_sp; static int g_cfail;
static DLiteType g_st, g_dt; static size_t g_sz, g_dz;
#define N(d) ((d)[0] * (ND > 1 ? (d)[1] : 1) * (ND > 2 ? (d)[2] : 1))
/* byte offset of element k (C order) */
static long cell(const size_t *d, const int *st, size_t k)
{
#if ND == 1
  return (long)k*st[0];
#elif ND == 2
  return (long)(k / d[1])*st[0] + (long)(k % d[1])*st[1];
#else
  return (long)(k / (d[1]*d[2]))*st[0] + (long)(k / d[2] % d[1])*st[1] + (long)(k % d[2])*st[2];
#endif
}
/* the element cast: what it does is property C01; here: which pair of elements it is called with */
int castfun(void *dest, DLiteType dt, size_t dz, const void *src, DLiteType st, size_t sz)
{
  __CPROVER_assert(dt == g_dt && dz == g_dz && st == g_st && sz == g_sz, "castfun: types and sizes of the elements");
  if (g_calls == g_k) { g_dp = dest; g_sp = src; }
  return g_calls++ == g_pos ? g_cfail : 0;
}
int dlite_type_copy_cast(void *dest, DLiteType dt, size_t dz, const void *src, DLiteType st, size_t sz) { __CPROVER_assert(0, "only the given castfun is used"); return 0; }
#define CONT(st, d, z) (st[ND-1] == (int)(z) && (ND < 2 || st[ND-2] == (int)((z)*d[ND-1])) && (ND < 3 || st[0] == (int)((z)*d[ND-1]*d[ND-2])))
int dlite_type_ndcast(int ndims, void *dest, DLiteType dest_type, size_t dest_size, const size_t *dest_dims, const int *dest_strides,
  const void *src, DLiteType src_type, size_t src_size, const size_t *src_dims, const int *src_strides, DLiteTypeCast castf)
__CPROVER_assigns(g_calls, g_dp, g_sp, __CPROVER_object_whole(D))
/* another number of elements: refused, nothing is copied */
__CPROVER_ensures(N(SD) != N(DD) ==> (RET != 0 && g_calls == 0 && D[g_k % ROOM] == D0[g_k % ROOM]))
/* a failing element cast fails the whole */
__CPROVER_ensures((N(SD) == N(DD) && g_calls > g_pos && g_cfail) ==> RET != 0)
__CPROVER_ensures((N(SD) == N(DD) && (g_pos >= N(SD) || !g_cfail)) ==> RET == 0)
/* either every pair of elements is cast once, in C order of both, */
__CPROVER_ensures((RET == 0 && g_calls > 0) ==> g_calls == N(SD))
__CPROVER_ensures((RET == 0 && g_calls > 0 && g_k < N(SD)) ==> (g_dp == dp0 + cell(DD, DS, g_k) && g_sp == sp0 + cell(SD, SS, g_k)))
__CPROVER_ensures((RET == 0 && g_calls > 0) ==> D[g_k % ROOM] == D0[g_k % ROOM])
/* or both are contiguous arrays of the same plain type and the memory is copied */
__CPROVER_ensures((RET == 0 && g_calls == 0 && N(SD) > 0) ==> (g_st == g_dt && g_sz == g_dz && g_st < dliteStringPtr && CONT(SS, SD, g_sz) && CONT(DS, DD, g_dz)))
__CPROVER_ensures((RET == 0 && g_calls == 0 && g_k < N(SD)*g_sz) ==> dp0[g_k] == sp0[g_k])
__CPROVER_ensures((RET == 0 && g_calls == 0 && g_pos < ROOM && (D + g_pos < dp0 || D + g_pos >= dp0 + N(SD)*g_sz)) ==> D[g_pos] == D0[g_pos])
;
void harness(void)
{
  size_t k, p; _Bool cs, cd; int i; long slo = 0, shi = 0, dlo = 0, dhi = 0; g_k = k; g_pos = p; g_calls = 0;
  __CPROVER_assume((g_sz == 1 || g_sz == 2 || g_sz == 4) && (g_dz == 1 || g_dz == 2 || g_dz == 4));
  __CPROVER_assume((g_st == dliteInt || g_st == dliteUInt || g_st == dliteFixString || g_st == dliteStringPtr) && (g_dt == dliteInt || g_dt == dliteUInt || g_dt == dliteFixString || g_dt == dliteStringPtr));
  for (i = 0; i < ND; i++) {
    __CPROVER_assume(SD[i] <= MAXD && DD[i] <= MAXD);
    __CPROVER_assume(SS[i] >= -20 && SS[i] <= 20 && DS[i] >= -20 && DS[i] <= 20);
    long s = SD[i] ? (long)(SD[i] - 1)*SS[i] : 0, d = DD[i] ? (long)(DD[i] - 1)*DS[i] : 0;
    if (s < 0) slo += s; else shi += s;
    if (d < 0) dlo += d; else dhi += d;
  }
#ifdef DEFAULT
  /* strides not given: C-contiguous */
  size_t c = g_sz; for (i = ND-1; i >= 0; i--) { SS[i] = (int)c; c *= SD[i]; }
  c = g_dz; for (i = ND-1; i >= 0; i--) { DS[i] = (int)c; c *= DD[i]; }
  sp0 = S; dp0 = D;
#else
  __CPROVER_assume(shi - slo + (long)g_sz <= ROOM && dhi - dlo + (long)g_dz <= ROOM);
  sp0 = S - slo; dp0 = D - dlo;
#endif
  for (i = 0; i < ROOM; i++) D0[i] = D[i];
#ifdef DEFAULT
  if (dlite_type_ndcast(ND, dp0, g_dt, g_dz, DD, NULL, sp0, g_st, g_sz, SD, NULL, castfun) == 0) VF_REACH("cast");
#else
  if (dlite_type_ndcast(ND, dp0, g_dt, g_dz, DD, DS, sp0, g_st, g_sz, SD, SS, castfun) == 0) VF_REACH("cast");
#endif
}
