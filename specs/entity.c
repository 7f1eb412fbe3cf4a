/* I01 immutability, I02 transactions, I03 references: dlite-entity.c */
#include "config.h"
#include "err_stub.h"
#include <limits.h>
size_t g_k, g_pos, *g_P; int *g_I;
#include "dlite-entity.c"
#define RET __CPROVER_return_value
#define FRESH(p) __CPROVER_is_fresh(p, sizeof(*(p)))
/* must not be reached: an obligation that fails at any call */
#define NOCALL __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0)

#ifdef U_FROZEN
/* every way of changing an immutable instance is refused: nothing at all is assigned */
int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i, const void *ptr)
__CPROVER_requires(FRESH(inst) && FRESH(inst->meta) && (inst->_flags & dliteImmutable))
__CPROVER_requires(inst->meta->_properties != NULL && i < 1000)
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
__CPROVER_requires(FRESH(inst) && FRESH(inst->meta) && (inst->_flags & dliteImmutable))
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
__CPROVER_requires(FRESH(inst) && FRESH(parent))
__CPROVER_requires((inst->_flags & dliteImmutable) || !(parent->_flags & dliteImmutable))
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
int dlite_instance_snapshot(DLiteInstance *inst)
__CPROVER_requires(FRESH(inst) && FRESH(inst->meta) && (inst->_flags & dliteImmutable))
__CPROVER_requires(inst->uri == NULL || (__CPROVER_is_fresh(inst->uri, 4) && inst->uri[3] == 0))
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst, int i, DLiteType type, size_t size,
  const size_t *shape, const int *strides, const void *src, DLiteTypeCast castfun)
__CPROVER_requires(FRESH(inst) && FRESH(inst->meta) && (inst->_flags & dliteImmutable))
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
int dlite_instance_scan_property_by_index(const char *src, const DLiteInstance *inst, size_t i, DLiteTypeFlag flags)
__CPROVER_requires(FRESH(inst) && FRESH(inst->meta) && (inst->_flags & dliteImmutable))
__CPROVER_requires(inst->meta->_properties != NULL && i < 1000)
__CPROVER_assigns() __CPROVER_ensures(RET != 0);
void dlite_instance_freeze(DLiteInstance *inst)
__CPROVER_requires(FRESH(inst)) __CPROVER_assigns(inst->_flags)
__CPROVER_ensures(inst->_flags == (__CPROVER_old(inst->_flags) | dliteImmutable));
int dlite_instance_is_frozen(const DLiteInstance *inst)
__CPROVER_requires(FRESH(inst)) __CPROVER_assigns() __CPROVER_ensures((RET != 0) == ((inst->_flags & dliteImmutable) != 0));
/* must not be reached from a refused call */
DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid) NOCALL;
int dlite_instance_get_hash(const DLiteInstance *inst, uint8_t *hash, int hashsize) NOCALL;
void *dlite_instance_get_property_by_index(const DLiteInstance *inst, size_t i) NOCALL;
int dlite_property_scan(const char *src, void *ptr, const DLiteProperty *p, const size_t *dims, DLiteTypeFlag flags) NOCALL;
int dlite_type_ndcast(int ndims, void *dest, DLiteType dest_type, size_t dest_size, const size_t *dest_dims, const int *dest_strides,
  const void *src, DLiteType src_type, size_t src_size, const size_t *src_dims, const int *src_strides, DLiteTypeCast castfun) NOCALL;
size_t strcspn(const char *s, const char *reject) { size_t n; return n; }   /* trusted stand-ins */
int dlite_err(int eval, const char *msg, ...) { return eval; }
int dlite_errx(int eval, const char *msg, ...) { return eval; }
int dlite_instance_is_data(const DLiteInstance *inst) NOCALL;
void dlite_init(void) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0);
uint32_t rand_msws32(void) NOCALL;
static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims) NOCALL;
void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size) NOCALL;

void h_setprop(void) { DLiteInstance *a; size_t i; void *p; dlite_instance_set_property_by_index(a, i, p); VF_REACH("setprop"); }
void h_setdims(void) { DLiteInstance *a; int *d; dlite_instance_set_dimension_sizes(a, d); VF_REACH("setdims"); }
void h_setparent(void) { DLiteInstance *a, *b; dlite_instance_set_parent(a, b); VF_REACH("setparent"); }
void h_snapshot(void) { DLiteInstance *a; dlite_instance_snapshot(a); VF_REACH("snapshot"); }
void h_assign(void) { DLiteInstance *a; int i; DLiteType t; size_t z, *s; int *st; void *p; DLiteTypeCast c; dlite_instance_assign_casted_property_by_index(a, i, t, z, s, st, p, c); VF_REACH("assign"); }
void h_scan(void) { DLiteInstance *a; size_t i; char *p; DLiteTypeFlag f; dlite_instance_scan_property_by_index(p, a, i, f); VF_REACH("scan"); }
void h_freeze(void) { DLiteInstance *a; dlite_instance_freeze(a); VF_REACH("freeze"); }
void h_isfrozen(void) { DLiteInstance *a; dlite_instance_is_frozen(a); VF_REACH("isfrozen"); }
#endif

#ifdef U_HASH
/* the hash of an instance, as dlite_instance_get_hash() calculates it: arbitrary but fixed per instance */
uint8_t g_hash[DLITE_HASH_SIZE]; int g_hashfail;
int dlite_instance_get_hash(const DLiteInstance *inst, uint8_t *hash, int hashsize)
__CPROVER_requires(hashsize == DLITE_HASH_SIZE && __CPROVER_w_ok(hash, DLITE_HASH_SIZE))
__CPROVER_assigns(__CPROVER_object_upto(hash, DLITE_HASH_SIZE))
__CPROVER_ensures(RET == g_hashfail)
__CPROVER_ensures(g_k < DLITE_HASH_SIZE ==> hash[g_k] == g_hash[g_k]);
#endif
#ifdef U_PARENT
int g_dec;
int dlite_instance_decref(DLiteInstance *inst)
__CPROVER_requires(inst->_refcount > 0) __CPROVER_assigns(inst->_refcount, g_dec)
__CPROVER_ensures(inst->_refcount == __CPROVER_old(inst->_refcount) - 1 && g_dec == __CPROVER_old(g_dec) + 1);
int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
__CPROVER_requires(FRESH(inst) && FRESH(parent) && !(inst->_flags & dliteImmutable) && (parent->_flags & dliteImmutable))
__CPROVER_requires(parent->_refcount > 0 && parent->_refcount < 1000000 && parent->uuid[DLITE_UUID_LENGTH] == 0)
#ifdef HASOLD
__CPROVER_requires(FRESH(inst->_parent) && FRESH(inst->_parent->parent) && inst->_parent->parent->_refcount > 1)
__CPROVER_assigns(*(inst->_parent), parent->_refcount, inst->_parent->parent->_refcount, g_dec)
#else
__CPROVER_requires(inst->_parent == NULL)
__CPROVER_assigns(inst->_parent, parent->_refcount, g_dec)
#endif
__CPROVER_requires(g_dec == 0)
__CPROVER_ensures(g_hashfail ==> RET != 0)
__CPROVER_ensures(RET != 0 ==> parent->_refcount == __CPROVER_old(parent->_refcount))
__CPROVER_ensures(RET == 0 ==> (inst->_parent != NULL && inst->_parent->parent == parent))
/* one new reference to the parent, the old parent's one is released */
__CPROVER_ensures(RET == 0 ==> parent->_refcount == __CPROVER_old(parent->_refcount) + 1)
#ifdef HASOLD
__CPROVER_ensures(RET == 0 ==> (g_dec == 1 && __CPROVER_old(inst->_parent->parent)->_refcount == __CPROVER_old(inst->_parent->parent->_refcount) - 1))
#else
__CPROVER_ensures(g_dec == 0)
#endif
/* it records the parent's hash and uuid */
__CPROVER_ensures((RET == 0 && g_k < DLITE_HASH_SIZE) ==> inst->_parent->hash[g_k] == g_hash[g_k])
__CPROVER_ensures((RET == 0 && g_pos <= DLITE_UUID_LENGTH && inst->_parent->uuid[g_pos] != parent->uuid[g_pos]) ==> parent->uuid[g_P[0]] == 0 && g_P[0] < g_pos)
;
void harness(void) { DLiteInstance *a, *b; size_t k, p, z; g_k = k; g_pos = p; g_P = &z;
  if (dlite_instance_set_parent(a, b) == 0) VF_REACH("parent"); }
#endif

#ifdef U_REF
int g_freed;
static int dlite_instance_free(DLiteInstance *inst)
/* an obligation at every call: only when the last reference is gone */
__CPROVER_requires(inst->_refcount == 0 && g_freed == 0)
__CPROVER_assigns(g_freed) __CPROVER_ensures(g_freed == 1);
int dlite_instance_decref(DLiteInstance *inst)
__CPROVER_requires(FRESH(inst) && inst->_refcount > 0 && g_freed == 0)
__CPROVER_assigns(inst->_refcount, g_freed)
__CPROVER_ensures(inst->_refcount == __CPROVER_old(inst->_refcount) - 1)
__CPROVER_ensures((g_freed == 1) == (inst->_refcount == 0))
__CPROVER_ensures(RET == inst->_refcount || (RET == -1 && g_freed));
int dlite_instance_incref(DLiteInstance *inst)
__CPROVER_requires(FRESH(inst) && inst->_refcount >= 0 && inst->_refcount < INT_MAX)
__CPROVER_assigns(inst->_refcount)
__CPROVER_ensures(inst->_refcount == __CPROVER_old(inst->_refcount) + 1 && RET == inst->_refcount);
void h_dec(void) { DLiteInstance *a; g_freed = 0; dlite_instance_decref(a); VF_REACH("dec"); }
void h_inc(void) { DLiteInstance *a; dlite_instance_incref(a); VF_REACH("inc"); }
#endif
