/* C01: dlite_type_copy_cast() between bool, int, uint and float of every size. */
#include "config.h"
#include "err_stub.h"
#include "utils/boolean.h"
#include "utils/integers.h"
#include "utils/floats.h"
#include "dlite-type.h"
#include "dlite-type-cast.h"
int errno_; 
#define UVAL(p,n) ((n)==1 ? *(uint8_t*)(p) : (n)==2 ? *(uint16_t*)(p) : (n)==4 ? *(uint32_t*)(p) : *(uint64_t*)(p))
#define IVAL(p,n) ((n)==1 ? *(int8_t*)(p) : (n)==2 ? *(int16_t*)(p) : (n)==4 ? *(int32_t*)(p) : *(int64_t*)(p))
#define UMAX(n) ((n)==8 ? UINT64_MAX : ((uint64_t)1 << (8*((n)&7))) - 1)
#define IMAX(n) ((int64_t)(UMAX(n) >> 1))
#define IMIN(n) (-IMAX(n) - 1)
#define ISZ(n) ((n)==1 || (n)==2 || (n)==4 || (n)==8)
#define FSZ(n) ((n)==4 || (n)==8)
#define FVAL(p,n) ((n)==4 ? (double)*(float*)(p) : *(double*)(p))
#define SIZEOK(t,n) ((t)==dliteBool ? (n)==1 : (t)==dliteFloat ? FSZ(n) : ISZ(n))
#define RET __CPROVER_return_value
#define S src
#define SN src_size
#define D dest
#define DN dest_size
#define FBITS_EQ(x,y) ((x)==(y) || ((x)!=(x) && (y)!=(y)))

/* never called for these type combinations: an obligation at each call site */
int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype, size_t size, int width, int prec, DLiteTypeFlag flags)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
int dlite_type_set_typename(DLiteType dtype, size_t size, char *typename, size_t n)
__CPROVER_requires(n <= 32 && __CPROVER_w_ok(typename, n))
__CPROVER_assigns(__CPROVER_object_upto(typename, n)) __CPROVER_ensures(1);
long double strtold(const char *s, char **e) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);

int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
                         const void *src, DLiteType src_type, size_t src_size)
__CPROVER_requires(src_type == SRC && src_size == SRCN)
__CPROVER_requires(dest_type == DST)
__CPROVER_requires(SIZEOK(src_type, src_size) && SIZEOK(dest_type, dest_size))
__CPROVER_requires(__CPROVER_is_fresh(src, src_size))
__CPROVER_requires(src_type == dliteBool ==> *(uint8_t *)src <= 1)
__CPROVER_requires(__CPROVER_is_fresh(dest, dest_size))
/* frame: the destination object only (the source can never change) */
__CPROVER_assigns(__CPROVER_object_upto(dest, dest_size))
/* refused exactly when a negative number is cast to unsigned */
__CPROVER_ensures((dest_type == dliteUInt &&
                   ((SRC == dliteInt && IVAL(S,SN) < 0) || (SRC == dliteFloat && FVAL(S,SN) < 0))) ? RET != 0 : RET == 0)
#if SRC_NO == 1 || SRC_NO == 3   /* bool, uint */
#define SV UVAL(S,SN)
__CPROVER_ensures(dest_type == dliteBool ==> *(uint8_t *)dest == (SV != 0))
__CPROVER_ensures((dest_type == dliteUInt && SV <= UMAX(DN)) ==> UVAL(D,DN) == SV)
__CPROVER_ensures((dest_type == dliteInt && SV <= (uint64_t)IMAX(DN)) ==> (IVAL(D,DN) >= 0 && (uint64_t)IVAL(D,DN) == SV))
__CPROVER_ensures((dest_type == dliteFloat && DN == 4) ==> *(float *)dest == (float)SV)
__CPROVER_ensures((dest_type == dliteFloat && DN == 8) ==> *(double *)dest == (double)SV)
#elif SRC_NO == 2                /* int */
#define SV IVAL(S,SN)
__CPROVER_ensures(dest_type == dliteBool ==> *(uint8_t *)dest == (SV != 0))
__CPROVER_ensures((dest_type == dliteUInt && SV >= 0 && (uint64_t)SV <= UMAX(DN)) ==> UVAL(D,DN) == (uint64_t)SV)
__CPROVER_ensures((dest_type == dliteInt && SV <= IMAX(DN) && SV >= IMIN(DN)) ==> IVAL(D,DN) == SV)
__CPROVER_ensures((dest_type == dliteFloat && DN == 4) ==> *(float *)dest == (float)SV)
__CPROVER_ensures((dest_type == dliteFloat && DN == 8) ==> *(double *)dest == (double)SV)
#else                            /* float */
#define SV FVAL(S,SN)
__CPROVER_ensures(dest_type == dliteBool ==> *(uint8_t *)dest == (SV != 0))
__CPROVER_ensures((dest_type == dliteUInt && SV >= 0 && SV < 0x1p64 && (uint64_t)SV <= UMAX(DN)) ==> UVAL(D,DN) == (uint64_t)SV)
__CPROVER_ensures((dest_type == dliteInt && SV > -0x1p63 && SV < 0x1p63 && (int64_t)SV <= IMAX(DN) && (int64_t)SV >= IMIN(DN))
                  ==> IVAL(D,DN) == (int64_t)SV)
__CPROVER_ensures((dest_type == dliteFloat && DN == 4) ==> FBITS_EQ(*(float *)dest, (float)SV))
__CPROVER_ensures((dest_type == dliteFloat && DN == 8) ==> FBITS_EQ(*(double *)dest, SV))
#endif
;

void harness(void)
{
  void *dest; const void *src; size_t dn;
  dlite_type_copy_cast(dest, DST, dn, src, SRC, SRCN);
  VF_REACH("cast");
}
