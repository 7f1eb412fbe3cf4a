/* loop contracts for dlite-arrays.c.
   g_P / g_I: ghost arrays; g_P[i] is the C-order stride in front of dimension i
   (g_P[ndims] = element size, g_P[i] = g_P[i+1]*shape[i]) */
#ifdef U_CREATE
#define DLITE_LOOP_array_create \
  __CPROVER_assigns(i, size, __CPROVER_object_upto(arr->strides, ndims*sizeof(int))) \
  __CPROVER_loop_invariant(-1 <= i && i < ndims && size == g_P[i+1]) \
  __CPROVER_loop_invariant((g_k < (size_t)ndims && (long)g_k > i) ==> arr->strides[g_k] == (int)g_P[g_k+1]) \
  __CPROVER_decreases(i+1)
#define DLITE_GHOST_array_create  __CPROVER_assume(g_P[i] == g_P[i+1]*shape[i]);
#endif
#ifdef U_CONT
#define DLITE_LOOP_array_is_continuous \
  __CPROVER_assigns(n, size, g_pos) \
  __CPROVER_loop_invariant(-1 <= n && n < arr->ndims && size == g_I[n+1]) \
  __CPROVER_loop_invariant((g_k < (size_t)arr->ndims && (long)g_k > n) ==> arr->strides[g_k] == g_I[g_k+1]) \
  __CPROVER_decreases(n+1)
#define DLITE_GHOST_array_is_continuous \
  __CPROVER_assume(g_I[n] == (int)(g_I[n+1]*arr->shape[n])); \
  if (arr->strides[n] != g_I[n+1]) g_pos = (size_t)n;
#endif
#ifdef U_TRANSPOSE
#define DLITE_LOOP_array_transpose \
  __CPROVER_assigns(i, __CPROVER_object_upto(new->strides, arr->ndims*sizeof(int)), __CPROVER_object_upto(new->shape, arr->ndims*sizeof(size_t))) \
  __CPROVER_loop_invariant(0 <= i && i <= arr->ndims) \
  __CPROVER_loop_invariant(g_k < (size_t)i ==> (new->shape[g_k] == arr->shape[arr->ndims-1-g_k] && new->strides[g_k] == arr->strides[arr->ndims-1-g_k])) \
  __CPROVER_decreases(arr->ndims - i)
#endif
#ifdef U_NEXT
#define DLITE_LOOP_array_iter_empty \
  __CPROVER_assigns(n) \
  __CPROVER_loop_invariant(-1 <= n && n < arr->ndims) \
  __CPROVER_loop_invariant((g_k < (size_t)arr->ndims && (long)g_k > n) ==> arr->shape[g_k] > 0) \
  __CPROVER_decreases(n+1)
#define OLDI(k) __CPROVER_loop_entry(iter->ind[k])
#define RESET(k) (iter->ind[k] == 0 && OLDI(k) + 1 >= (int)arr->shape[k])
#define DLITE_LOOP_array_iter_next \
  __CPROVER_assigns(n, __CPROVER_object_upto(iter->ind, arr->ndims*sizeof(int))) \
  __CPROVER_loop_invariant(-1 <= n && n < arr->ndims) \
  __CPROVER_loop_invariant((long)g_k > n ? RESET(g_k) : iter->ind[g_k] == OLDI(g_k)) \
  __CPROVER_loop_invariant((long)g_pos > n ? RESET(g_pos) : iter->ind[g_pos] == OLDI(g_pos)) \
  __CPROVER_decreases(n+1)
#endif
