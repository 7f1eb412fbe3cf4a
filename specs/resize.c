/* D01: resizing an instance, dlite-entity.c */
#include "config.h"
#include "err_stub.h"
#include <limits.h>
#include <stdlib.h>
size_t g_k, g_pos, *g_P; int *g_I;
#include "dlite-entity.c"
#define RET __CPROVER_return_value
int dlite_err(int eval, const char *msg, ...) { return eval; }
int dlite_errx(int eval, const char *msg, ...) { return eval; }

#ifdef U_RESIZE
#define Z 4
#ifndef MAXN
#define MAXN 3
#endif
/* an instance with two dimensions, a scalar and two arrays (one- and two-dimensional) of 4-byte elements */
static DLiteMeta M; static DLiteProperty PR[3]; static size_t PO[3], PDI[3];
static struct { DLiteInstance h; size_t dim[2]; char v0[8]; char *v1, *v2; size_t pd[3]; } X;
static int g_fail; static size_t N1, N2, N3;          /* what the dimension expressions evaluate to */
static size_t O1, O2, O3; static char *A1, *A2; static char V1[MAXN*Z], V2[MAXN*MAXN*Z];
static const int *g_dims; static size_t OD[2];
#define WANT(i) (g_dims[i] >= 0 ? (size_t)g_dims[i] : OD[i])
/* evaluation of the expressions: property E01. The new sizes are those of the wanted dimensions. */
static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
__CPROVER_requires(inst == &X.h && dims[0] == WANT(0) && dims[1] == WANT(1))
__CPROVER_assigns(__CPROVER_object_upto(X.pd, sizeof X.pd))
__CPROVER_ensures(RET == g_fail) __CPROVER_ensures(g_fail || (X.pd[0] == N1 && X.pd[1] == N2 && X.pd[2] == N3));
int dlite_instance_is_data(const DLiteInstance *inst) __CPROVER_requires(inst == &X.h) __CPROVER_assigns() __CPROVER_ensures(RET != 0);
size_t g_cleared;
/* elements that go away are released exactly once and before they are gone, others never */
void *dlite_type_clear(void *p, DLiteType t, size_t size)
__CPROVER_requires(t == dliteInt && size == Z && __CPROVER_w_ok(p, Z))
__CPROVER_requires((p == A1 + Z*g_k && g_k < O1) ==> (g_k >= N1 && g_cleared == 0))
__CPROVER_assigns(g_cleared)
__CPROVER_ensures(g_cleared == __CPROVER_old(g_cleared) + (p == A1 + Z*g_k ? 1 : 0));
int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
__CPROVER_requires(inst == &X.h && dims == g_dims)
__CPROVER_assigns(X.v1, X.v2, __CPROVER_object_upto(X.pd, sizeof X.pd), __CPROVER_object_upto(X.dim, sizeof X.dim), g_cleared; A1 != NULL: __CPROVER_object_whole(A1); A2 != NULL: __CPROVER_object_whole(A2))
__CPROVER_frees(A1, A2)
__CPROVER_ensures((RET == 0) == (g_fail == 0))
/* refused: nothing changes */
__CPROVER_ensures(RET != 0 ==> (X.dim[0] == OD[0] && X.dim[1] == OD[1] && X.pd[0] == O1 && X.pd[1] == O2 && X.pd[2] == O3 && X.v1 == A1 && X.v2 == A2))
__CPROVER_ensures((RET != 0 && g_pos < O1*Z) ==> X.v1[g_pos] == V1[g_pos])
__CPROVER_ensures((RET != 0 && g_pos < O2*O3*Z) ==> X.v2[g_pos] == V2[g_pos])
/* accepted: the wanted dimensions and the evaluated property dimensions are in force */
__CPROVER_ensures(RET == 0 ==> (X.dim[0] == WANT(0) && X.dim[1] == WANT(1) && X.pd[0] == N1 && X.pd[1] == N2 && X.pd[2] == N3))
/* an array has room for its elements, keeps those that fit and is zero from there on; without elements there is no array */
__CPROVER_ensures(RET == 0 ==> (N1 ? __CPROVER_rw_ok(X.v1, N1*Z) : X.v1 == NULL))
__CPROVER_ensures((RET == 0 && g_pos < N1*Z) ==> X.v1[g_pos] == (g_pos < O1*Z ? V1[g_pos < O1*Z ? g_pos : 0] : 0))
__CPROVER_ensures(RET == 0 ==> (N2*N3 ? __CPROVER_rw_ok(X.v2, N2*N3*Z) : X.v2 == NULL))
__CPROVER_ensures((RET == 0 && g_pos < N2*N3*Z) ==> X.v2[g_pos] == (g_pos < O2*O3*Z ? V2[g_pos < O2*O3*Z ? g_pos : 0] : 0))
__CPROVER_ensures((RET == 0 && g_k >= N1 && g_k < O1) ==> g_cleared == 1)
;
void harness(void)
{
  int d[2]; size_t k, p, i; g_k = k; g_pos = p; g_dims = d; g_cleared = 0; __CPROVER_assume(k < 2*MAXN);
  X.h.meta = &M; X.h._flags = 0; X.h.uri = NULL; M._setdim = NULL; M._getdim = NULL;
  M._ndimensions = 2; M._nproperties = 3; M._npropdims = 3; M._properties = PR; M._propoffsets = PO; M._propdiminds = PDI;
  M._dimoffset = offsetof(__typeof__(X), dim); M._propdimsoffset = offsetof(__typeof__(X), pd);
  PO[0] = offsetof(__typeof__(X), v0); PO[1] = offsetof(__typeof__(X), v1); PO[2] = offsetof(__typeof__(X), v2); PDI[0] = 0; PDI[1] = 0; PDI[2] = 1;
  PR[0].ndims = 0; PR[0].size = 8; PR[0].type = dliteFloat; PR[1].ndims = 1; PR[1].size = Z; PR[1].type = dliteInt; PR[2].ndims = 2; PR[2].size = Z; PR[2].type = dliteInt;
  __CPROVER_assume(N1 <= MAXN && N2 <= MAXN && N3 <= MAXN && O1 <= MAXN && O2 <= MAXN && O3 <= MAXN);
  X.pd[0] = O1; X.pd[1] = O2; X.pd[2] = O3; OD[0] = X.dim[0]; OD[1] = X.dim[1];
  A1 = O1 ? malloc(O1*Z) : NULL; A2 = O2*O3 ? malloc(O2*O3*Z) : NULL; X.v1 = A1; X.v2 = A2;
  if (A1) for (i = 0; i < MAXN*Z; i++) if (i < O1*Z) A1[i] = V1[i];
  if (A2) for (i = 0; i < MAXN*MAXN*Z; i++) if (i < O2*O3*Z) A2[i] = V2[i];
  if (dlite_instance_set_dimension_sizes(&X.h, d) == 0) VF_REACH("resized"); else VF_REACH("refused");
}
#endif

#ifdef U_ONE
/* resizing one dimension leaves the others to set_dimension_sizes() with -1 */
static DLiteMeta M; static DLiteInstance A; static size_t g_i, g_size; static int g_ret, g_calls;
int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
__CPROVER_requires(inst == &A && __CPROVER_r_ok(dims, M._ndimensions*sizeof(int)))
__CPROVER_requires(dims[g_i] == (int)g_size) __CPROVER_requires((g_k < M._ndimensions && g_k != g_i) ==> dims[g_k] < 0)
__CPROVER_assigns(g_calls) __CPROVER_ensures(RET == g_ret && g_calls == __CPROVER_old(g_calls) + 1);
int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst, size_t i, size_t size)
__CPROVER_requires(inst == &A && i == g_i && size == g_size)
__CPROVER_assigns(g_calls)
__CPROVER_ensures(i >= M._ndimensions ==> (RET != 0 && g_calls == 0))
__CPROVER_ensures(i < M._ndimensions ==> (RET == g_ret && g_calls == 1))
;
void harness(void)
{
  size_t k, i, z; int r; g_k = k; g_i = i; g_size = z; g_ret = r; g_calls = 0; A.meta = &M; A.uri = NULL;
  __CPROVER_assume(M._ndimensions <= 6 && z <= INT_MAX);
  if (dlite_instance_set_dimension_size_by_index(&A, i, z) == 0) VF_REACH("one");
}
#endif

#ifdef U_EVAL
/* every dimension expression is evaluated with the wanted dimension sizes; negative results are refused */
static DLiteMeta M; static DLiteProperty PR[2]; static DLiteDimension DI[2]; static size_t g_dims[2]; static char *S0[2], *S1[1];
static char E[3][2], D[2][2]; static int R[3]; static _Bool g_bad[3];
static struct { DLiteInstance h; size_t pd[3]; } X;
int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars, char *errmsg, size_t errlen)
__CPROVER_requires(expr == E[0] || expr == E[1] || expr == E[2])
__CPROVER_requires(nvars == 2 && vars[0].name == D[0] && vars[1].name == D[1] && vars[0].value == (int)g_dims[0] && vars[1].value == (int)g_dims[1])
__CPROVER_requires(errlen > 0 && __CPROVER_w_ok(errmsg, errlen))
__CPROVER_assigns(errmsg[0])
__CPROVER_ensures(RET == (expr == E[0] ? R[0] : expr == E[1] ? R[1] : R[2]))
__CPROVER_ensures((errmsg[0] != 0) == (expr == E[0] ? g_bad[0] : expr == E[1] ? g_bad[1] : g_bad[2]));
#define BAD(i) (g_bad[i] || R[i] < 0)
static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
__CPROVER_requires(inst == &X.h && dims == g_dims)
__CPROVER_assigns(__CPROVER_object_upto(X.pd, sizeof X.pd))
__CPROVER_ensures((RET != 0) == (BAD(0) || BAD(1) || BAD(2)))
__CPROVER_ensures(RET == 0 ==> (X.pd[0] == (size_t)R[0] && X.pd[1] == (size_t)R[1] && X.pd[2] == (size_t)R[2]))
;
void harness(void)
{
  X.h.meta = &M; M._properties = PR; M._dimensions = DI; M._ndimensions = 2; M._nproperties = 2; M._npropdims = 3; M._propdimsoffset = offsetof(__typeof__(X), pd);
  DI[0].name = D[0]; DI[1].name = D[1]; PR[0].ndims = 2; PR[0].shape = S0; PR[1].ndims = 1; PR[1].shape = S1; S0[0] = E[0]; S0[1] = E[1]; S1[0] = E[2];
  __CPROVER_assume(g_dims[0] <= INT_MAX && g_dims[1] <= INT_MAX);
  if (_instance_propdims_eval(&X.h, g_dims) == 0) VF_REACH("eval"); else VF_REACH("bad");
}
#endif
