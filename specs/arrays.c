/* A01: dlite-arrays.c */
#include "config.h"
#include "err_stub.h"
#include "dlite.h"
#include "dlite-arrays.h"
size_t g_k, g_pos, *g_P; int *g_I;
#define MAXD 1000   /* only keeps the byte sizes of the index arrays inside the address space */
#define RET __CPROVER_return_value
/* the array is not at the edge of the verifier's address space (pointer arithmetic does not wrap) */
#define MIDDLE(p) (__CPROVER_POINTER_OFFSET(p) >= 0x10000000000 && __CPROVER_POINTER_OFFSET(p) < 0x1000000000000)
#define FRESH_ARR(a) (__CPROVER_is_fresh(a, sizeof(DLiteArray)) && (a)->ndims >= 1 && (a)->ndims < MAXD && \
  __CPROVER_is_fresh((a)->shape, (a)->ndims*sizeof(size_t)) && __CPROVER_is_fresh((a)->strides, (a)->ndims*sizeof(int)))

#ifdef U_CREATE
DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size, int ndims, const size_t *shape)
__CPROVER_requires(ndims >= 1 && ndims < MAXD && size > 0)
__CPROVER_requires(__CPROVER_is_fresh(shape, ndims*sizeof(size_t)))
__CPROVER_requires(__CPROVER_is_fresh(g_P, (ndims+1)*sizeof(size_t)) && g_P[ndims] == size)
__CPROVER_assigns()
__CPROVER_ensures(RET == NULL || (RET->data == data && RET->type == type && RET->size == size && RET->ndims == ndims))
__CPROVER_ensures((RET != NULL && g_k < (size_t)ndims) ==> (RET->shape[g_k] == shape[g_k] && RET->strides[g_k] == (int)g_P[g_k+1]))
;
void harness(void) { void *d; DLiteType t; size_t s, k; int n; const size_t *sh; g_k = k;
  DLiteArray *a = dlite_array_create(d, t, s, n, sh); if (a) VF_REACH("create"); }
#endif
#ifdef U_CONT
int dlite_array_is_continuous(const DLiteArray *arr)
__CPROVER_requires(FRESH_ARR(arr) && arr->size > 0)
__CPROVER_requires(__CPROVER_is_fresh(g_I, (arr->ndims+1)*sizeof(int)) && g_I[arr->ndims] == (int)arr->size)
__CPROVER_assigns(g_pos)
/* non-zero: every stride is the C-order one */
__CPROVER_ensures((RET != 0 && g_k < (size_t)arr->ndims) ==> arr->strides[g_k] == g_I[g_k+1])
/* zero: some stride (the one at g_pos) is not */
__CPROVER_ensures(RET == 0 ==> (g_pos < (size_t)arr->ndims && arr->strides[g_pos] != g_I[g_pos+1]))
;
void harness(void) { DLiteArray *a; size_t k; g_k = k; dlite_array_is_continuous(a); VF_REACH("cont"); }
#endif
/* what callers of dlite_array_create() may assume */
#ifdef USE_CREATE
DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size, int ndims, const size_t *shape)
__CPROVER_requires(ndims >= 1 && ndims < MAXD && __CPROVER_r_ok(shape, ndims*sizeof(size_t)))
__CPROVER_assigns()
__CPROVER_ensures(RET == NULL || (__CPROVER_is_fresh(RET, sizeof(DLiteArray)) && __CPROVER_is_fresh(RET->shape, ndims*sizeof(size_t)) &&
   __CPROVER_is_fresh(RET->strides, ndims*sizeof(int)) && RET->data == data && RET->type == type && RET->size == size && RET->ndims == ndims))
;
void dlite_array_free(DLiteArray *arr)
__CPROVER_requires(arr != NULL) __CPROVER_assigns() __CPROVER_ensures(1);
#endif
#ifdef U_INDEX   /* rank ND */
#define TERM(i) (ind[(i) < ND ? (i) : 0] * arr->strides[(i) < ND ? (i) : 0])
#define SUM1 (0 + TERM(0))
#define SUM2 (SUM1 + TERM(1))
#define SUM3 (SUM2 + TERM(2))
#define SUM4 (SUM3 + TERM(3))
#define SUMX(n) SUM##n
#define SUM(n) SUMX(n)
void *dlite_array_index(const DLiteArray *arr, int *ind)
__CPROVER_requires(__CPROVER_is_fresh(arr, sizeof(DLiteArray)) && arr->ndims == ND && __CPROVER_is_fresh(arr->strides, ND*sizeof(int)))
__CPROVER_requires(__CPROVER_is_fresh(ind, ND*sizeof(int)) && MIDDLE(arr->data))
#define SMALL(i) (ind[(i) < ND ? (i) : 0] >= 0 && ind[(i) < ND ? (i) : 0] < 16 && arr->strides[(i) < ND ? (i) : 0] >= -128 && arr->strides[(i) < ND ? (i) : 0] < 128)
__CPROVER_requires(SMALL(0) && SMALL(1) && SMALL(2) && SMALL(3))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_same_object(RET, arr->data) && __CPROVER_POINTER_OFFSET(RET) == __CPROVER_POINTER_OFFSET(arr->data) + (long)SUM(ND))
;
void harness(void) { DLiteArray *a; int *ind; dlite_array_index(a, ind); VF_REACH("index"); }
#endif
#ifdef U_TRANSPOSE
DLiteArray *dlite_array_transpose(DLiteArray *arr)
__CPROVER_requires(FRESH_ARR(arr))
__CPROVER_assigns()
__CPROVER_ensures(RET == NULL || (RET->data == arr->data && RET->type == arr->type && RET->size == arr->size && RET->ndims == arr->ndims))
__CPROVER_ensures((RET != NULL && g_k < (size_t)arr->ndims) ==>
  (RET->shape[g_k] == arr->shape[arr->ndims-1-g_k] && RET->strides[g_k] == arr->strides[arr->ndims-1-g_k]))
;
void harness(void) { DLiteArray *a; size_t k; g_k = k; if (dlite_array_transpose(a)) VF_REACH("transpose"); }
#endif
#ifdef U_NEXT
void *g_ret; const DLiteArray *g_arr; int *g_ind;
/* the address of an element, as established for dlite_array_index() */
void *dlite_array_index(const DLiteArray *arr, int *ind)
__CPROVER_requires(arr == g_arr && ind == g_ind)
__CPROVER_assigns() __CPROVER_ensures(RET == g_ret);
/* g_k, g_pos: arbitrary dimensions, g_k before g_pos */
#define AR (iter->arr)
#define NEW(k) (iter->ind[k])
#define OLD(k) __CPROVER_old(iter->ind[k])
#define DIM(k) ((int)AR->shape[k])
#define KEPT(k)  (NEW(k) == OLD(k))
#define INCR(k)  (NEW(k) == OLD(k) + 1 && NEW(k) < DIM(k))
#define RESETD(k) (NEW(k) == 0 && OLD(k) + 1 >= DIM(k))
void *dlite_array_iter_next(DLiteArrayIter *iter)
__CPROVER_requires(__CPROVER_is_fresh(iter, sizeof(*iter)) && FRESH_ARR(iter->arr) && __CPROVER_is_fresh(iter->ind, iter->arr->ndims*sizeof(int)))
__CPROVER_requires(g_arr == iter->arr && g_ind == iter->ind && g_ret != NULL)
__CPROVER_requires(g_k < g_pos && g_pos < (size_t)iter->arr->ndims || (g_k == g_pos && g_k == (size_t)iter->arr->ndims - 1))
__CPROVER_assigns(__CPROVER_object_upto(iter->ind, iter->arr->ndims*sizeof(int)))
__CPROVER_ensures(RET == NULL || RET == g_ret)
/* once exhausted, exhausted */
__CPROVER_ensures((g_k == 0 && OLD(g_k) < -1) ==> (RET == NULL && NEW(g_k) < -1))
/* a non-NULL result is the successor in C order: an entry is kept, incremented or (at its end) reset;
   below an entry that changed everything is reset; the innermost entry never stays */
__CPROVER_ensures(RET != NULL ==> (KEPT(g_k) || INCR(g_k) || RESETD(g_k)))
__CPROVER_ensures((RET != NULL && g_k < g_pos && !KEPT(g_k)) ==> RESETD(g_pos))
__CPROVER_ensures((RET != NULL && g_k == g_pos) ==> (INCR(g_k) || RESETD(g_k)))
/* no element is skipped at the end: the end is marked only after the last index vector */
__CPROVER_ensures((RET == NULL && __CPROVER_old(iter->ind[0]) >= -1 && NEW(0) < -1) ==> OLD(g_k) + 1 >= DIM(g_k))
;
void harness(void) { DLiteArrayIter *i; size_t k, p; g_k = k; g_pos = p; if (dlite_array_iter_next(i)) VF_REACH("next"); }
#endif
#ifdef U_SLICE
/* one dimension (the loop treats the dimensions alike) */
static int norm(int x, int len) { if (x >= 0) return x > len ? len : x; return x + len < 0 ? 0 : x + len; }
#define LEN ((int)arr->shape[0])
int g_step[1] = { STEP };
#define D (STEP)
#define FIRST (D > 0 ? (start ? norm(start[0], LEN) : 0) : (start ? norm(start[0], LEN) : LEN) - 1)
#define END (D > 0 ? (stop ? norm(stop[0], LEN) : LEN) : (stop ? norm(stop[0], LEN) : 0) - 1)
#define SPAN (D > 0 ? (long)END - FIRST : (long)FIRST - END)
DLiteArray *dlite_array_slice(const DLiteArray *arr, int *start, int *stop, int *step)
__CPROVER_requires(FRESH_ARR(arr) && arr->ndims == 1 && arr->shape[0] <= DIMMAX)
__CPROVER_requires(start == NULL || __CPROVER_is_fresh(start, sizeof(int)))
__CPROVER_requires(stop == NULL || __CPROVER_is_fresh(stop, sizeof(int)))
__CPROVER_requires(MIDDLE(arr->data) && step == g_step && step[0] == STEP)
__CPROVER_requires(arr->strides[0] == 12)
__CPROVER_assigns()
__CPROVER_ensures(D == 0 ==> RET == NULL)
__CPROVER_ensures(RET != NULL ==> (RET->strides[0] == arr->strides[0]*D && RET->size == arr->size && RET->ndims == 1))
/* empty range, or count elements: the last one inside the range, one more would be outside */
__CPROVER_ensures((RET != NULL && SPAN <= 0) ==> RET->shape[0] == 0)
__CPROVER_ensures((RET != NULL && SPAN > 0) ==> (RET->shape[0] >= 1 && RET->shape[0] <= DIMMAX &&
   (long)(RET->shape[0] - 1)*(D > 0 ? D : -D) < SPAN && (long)RET->shape[0]*(D > 0 ? D : -D) >= SPAN))
__CPROVER_ensures((RET != NULL && SPAN > 0) ==> __CPROVER_same_object(RET->data, arr->data) && __CPROVER_POINTER_OFFSET(RET->data) == __CPROVER_POINTER_OFFSET(arr->data) + (long)(FIRST*arr->strides[0]))
;
void harness(void) { DLiteArray *a; int *b, *c; if (dlite_array_slice(a, b, c, g_step)) VF_REACH("slice"); }
#endif
