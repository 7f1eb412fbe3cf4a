/* L01: memory layout of instances, dlite_meta_init() and dlite_instance_size() in dlite-entity.c */
#include "config.h"
#include "err_stub.h"
size_t g_k, g_pos, *g_P; int *g_I;
#include "dlite-entity.c"
#define RET __CPROVER_return_value
#define PTRSZ 8
static size_t spec_align(DLiteType t, size_t n)
{
  switch (t) {
  case dliteBlob: case dliteFixString: return 1;
  case dliteBool: return n == 1 ? 1 : 0;
  case dliteInt: case dliteUInt: return (n == 1 || n == 2 || n == 4 || n == 8) ? n : 0;
  case dliteFloat: return (n == 4 || n == 8 || n == 16) ? n : 0;
  case dliteStringPtr: case dliteRef: return n == PTRSZ ? PTRSZ : 0;
  case dliteDimension: return n == sizeof(DLiteDimension) ? PTRSZ : 0;
  case dliteProperty: return n == sizeof(DLiteProperty) ? PTRSZ : 0;
  case dliteRelation: return n == sizeof(DLiteRelation) ? PTRSZ : 0;
  }
  return 0;
}
/* contract proved in unit "padding" of this property */
size_t dlite_type_padding_at(DLiteType dtype, size_t size, size_t offset)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation && spec_align(dtype, size) != 0)
__CPROVER_requires(offset <= SIZE_MAX - 16)
__CPROVER_assigns()
__CPROVER_ensures(RET < spec_align(dtype, size) && ((offset + RET) & (spec_align(dtype, size) - 1)) == 0)
;
int dlite_meta_is_metameta(const DLiteMeta *meta) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(RET == (int)(g_k & 1));
/* evaluating the dimension expressions: property E01 */
static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(RET == 0);
int dlite_meta_get_dimension_index(const DLiteMeta *meta, const char *name)
__CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(RET == ((g_pos & 1) ? -1 : 0));

static struct { DLiteMeta m; size_t room[2*NP + NP + 8]; } M;   /* metadata with its propdiminds and propoffsets segments */
static DLiteMeta MM;                                            /* its meta-metadata */
static DLiteProperty P[NP+1];
static DLiteDimension D = { "ndimensions", NULL };
#define PSZ(i) (P[i].ndims ? PTRSZ : P[i].size)
#define PAL(i) (P[i].ndims ? PTRSZ : spec_align(P[i].type, P[i].size))
#define DIMEND (M.m._ndimensions ? M.m._dimoffset + 8*M.m._ndimensions : M.m._headersize)

int dlite_meta_init(DLiteMeta *meta)
__CPROVER_assigns(__CPROVER_object_whole(meta))
__CPROVER_ensures(RET == 0)
__CPROVER_ensures(M.m._ndimensions == __CPROVER_old(M.m._ndimensions) && M.m._nproperties == NP)
/* header, dimensions, properties, relations, propdims, propdiminds follow each other without overlap, each aligned */
__CPROVER_ensures(M.m._headersize >= sizeof(DLiteInstance))
__CPROVER_ensures(M.m._ndimensions == 0 || (M.m._dimoffset >= M.m._headersize && M.m._dimoffset % 8 == 0))
__CPROVER_ensures((g_k < NP) ==> (M.m._propoffsets[g_k] >= DIMEND && M.m._propoffsets[g_k] % PAL(g_k) == 0))
__CPROVER_ensures((g_k < NP && g_pos < NP && g_k < g_pos) ==> M.m._propoffsets[g_k] + PSZ(g_k) <= M.m._propoffsets[g_pos])
__CPROVER_ensures((g_k < NP) ==> M.m._propoffsets[g_k] + PSZ(g_k) <= M.m._reloffset)
__CPROVER_ensures(M.m._reloffset >= DIMEND && M.m._propdimsoffset >= M.m._reloffset && M.m._propdimsoffset % 8 == 0)
__CPROVER_ensures(M.m._propdimindsoffset >= M.m._propdimsoffset + 8*M.m._npropdims && M.m._propdimindsoffset % 8 == 0)
/* packed: no more padding than alignment demands */
__CPROVER_ensures((g_k < NP && g_pos == g_k + 1 && g_pos < NP) ==> M.m._propoffsets[g_pos] - (M.m._propoffsets[g_k] + PSZ(g_k)) < PAL(g_pos))
/* the propdims of property k start where those of the properties before it end */
__CPROVER_ensures((g_k < NP && g_pos == g_k + 1 && g_pos < NP) ==> M.m._propdiminds[g_pos] == M.m._propdiminds[g_k] + (size_t)P[g_k].ndims)
__CPROVER_ensures(NP > 0 ==> (M.m._propdiminds[0] == 0 && M.m._npropdims == M.m._propdiminds[NP-1] + (size_t)P[NP-1].ndims))
;
void h_init(void)
{
  size_t k, p, nd, hs; int i; g_k = k; g_pos = p;
  __CPROVER_assume(nd >= 1 && nd <= 1000 && (hs == 0 || (hs >= sizeof(DLiteMeta) && hs <= 1000)));
  MM._ndimensions = 1; MM._dimensions = &D; MM._nproperties = 0; MM._dimoffset = sizeof(DLiteMeta);
  MM._propdimindsoffset = sizeof(DLiteMeta) + 8; MM._propdimsoffset = sizeof(DLiteMeta) + 8;
  M.m.meta = &MM; M.m._ndimensions = nd; M.m._nproperties = NP; M.m._nrelations = 0;
  M.m._dimensions = &D; M.m._properties = P; M.m._relations = NULL; M.m._headersize = hs;
  for (i = 0; i < NP; i++)
    __CPROVER_assume(P[i].ndims >= 0 && P[i].ndims <= 1000 && P[i].size <= 1000000 && P[i].type >= dliteBlob && P[i].type <= dliteRelation && spec_align(P[i].type, P[i].size) != 0);
  if (dlite_meta_init((DLiteMeta *)&M) == 0) VF_REACH("init");
}
#ifdef U_SIZE
size_t dlite_instance_size(const DLiteMeta *meta, const size_t *dims)
__CPROVER_requires(__CPROVER_is_fresh(meta, sizeof(DLiteMeta)) && __CPROVER_is_fresh(dims, sizeof(size_t)))
__CPROVER_requires(meta->_propdimindsoffset > 0 && meta->_propdimindsoffset < 1000000000 && dims[0] < 1000000000)
__CPROVER_assigns()
__CPROVER_ensures(((g_k & 1) && (g_pos & 1)) ==> RET == 0)
/* room for everything up to the propdiminds; metadata also hold propdiminds and propoffsets of their properties */
__CPROVER_ensures(!((g_k & 1) && (g_pos & 1)) ==> (RET % 8 == 0 && RET >= meta->_propdimindsoffset + ((g_k & 1) ? 16*dims[0] : 0)))
;
void h_size(void) { const DLiteMeta *m; const size_t *d; size_t k, p; g_k = k; g_pos = p; if (dlite_instance_size(m, d)) VF_REACH("size"); }
#endif
