/* C01: raw byte copies to and from blobs, any sizes. */
#include "config.h"
#include "err_stub.h"
#include "utils/boolean.h"
#include "utils/integers.h"
#include "utils/floats.h"
#include "dlite-type.h"
#include "dlite-type-cast.h"
size_t g_k;   /* ghost: an arbitrary byte position */
int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype, size_t size, int width, int prec, DLiteTypeFlag flags)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
int dlite_type_set_typename(DLiteType dtype, size_t size, char *typename, size_t n)
__CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);
long double strtold(const char *s, char **e) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(1);

int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
                         const void *src, DLiteType src_type, size_t src_size)
__CPROVER_requires(src_type == SRC && dest_type == DST)
__CPROVER_requires(0 < src_size && src_size < 0x10000000 && 0 < dest_size && dest_size < 0x10000000)
__CPROVER_requires(src_type != dliteBool || src_size == 1)
__CPROVER_requires(__CPROVER_is_fresh(src, src_size) && __CPROVER_is_fresh(dest, dest_size))
__CPROVER_assigns(__CPROVER_object_upto(dest, dest_size))
__CPROVER_ensures(__CPROVER_return_value == 0)
__CPROVER_ensures((g_k < dest_size && g_k < src_size) ==> ((char *)dest)[g_k] == ((char *)src)[g_k])
__CPROVER_ensures((g_k < dest_size && g_k >= src_size) ==> ((char *)dest)[g_k] == 0)
;
void harness(void)
{
  void *dest; const void *src; size_t dn, sn, k;
  g_k = k;
  dlite_type_copy_cast(dest, DST, dn, src, SRC, sn);
  VF_REACH("cast_blob");
}
