/* B01: contracts for the writing and reading of property values in dlite-bson.c: what append_property writes,
   set_scalar_property and set_array_property read back, for every value */
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#include "err_stub.h"
/* snprintf of libc, for the indices the code under contract prints */
static int vf_index(char *s, size_t n, const char *f, int i) { __CPROVER_assert(f[0] == '%' && f[1] == 'd' && !f[2] && n > 1, "model: a decimal"); __CPROVER_assume(i >= 0 && i < 10); s[0] = '0' + i; s[1] = 0; return 1; }
#define snprintf vf_index
#include "utils/bson.c"
#include "dlite-bson.c"
int nondet_int(void); unsigned char nondet_uchar(void);
#ifndef N
# define N 1
#endif
#define CELL (PSIZE*(N > 0 ? N : 1))
#ifdef U_WHOLE
# define MORE 1
#else
# define MORE 0
#endif
static struct { DLiteInstance i; size_t dims[2]; } I; static DLiteMeta M; static DLiteProperty P; static size_t pind[1]; static char nm[3] = "ab";
static unsigned char *to;              /* the value of the property in the instance that is read */
static DLiteInstance R[2]; static int refs[2];
void *dlite_instance_get_property_by_index(const DLiteInstance *inst, size_t i)
{ __CPROVER_assert((inst == &I.i || MORE) && i == 0, "the property"); return to; }
int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i, const void *ptr)
{ size_t k; __CPROVER_assert((inst == &I.i || MORE) && i == 0, "the property"); for (k = 0; k < PSIZE*(size_t)N; k++) to[k] = ((unsigned char *)ptr)[k]; return 0; }
DLiteInstance *dlite_instance_get(const char *id)
{
  int i, k;
#if defined U_WHOLE && !defined NOURI
  refs[0]++; __CPROVER_assert(id[0] == 'h', "found by its uri"); return &R[0];
#endif
  for (i = 0; i < 2; i++) { for (k = 0; k < DLITE_UUID_LENGTH && id[k] == R[i].uuid[k]; k++); if (k == DLITE_UUID_LENGTH && id[k] == 0) { refs[i]++; return &R[i]; } }
  return NULL;
}
const char *dlite_type_get_dtypename(DLiteType t) { return ""; }
const char *dlite_type_get_enum_name(DLiteType t) { return ""; }
/* strdup of libc into memory of exactly the size */
char *strdup(const char *s) { size_t i, n = strlen(s); char *r = malloc(n + 1); for (i = 0; i <= n; i++) r[i] = s[i]; return r; }
#ifndef MASK
# define MASK 0
#endif
static char *fix(int b) { int i; char *s; if (!(MASK >> b & 1)) return NULL; s = malloc(b%3 + 1); for (i = 0; i < b%3; i++) s[i] = 'p' + b + i; s[b%3] = 0; return s; }
static char *text(void) { int i, n = nondet_int(); char *s = malloc(3); __CPROVER_assume(n >= 0 && n <= 2); for (i = 0; i < 2; i++) __CPROVER_assume(i >= n || s[i] != 0); s[n] = 0; s[2] = 0; return s; }
static int same(const char *a, const char *b) { if (!a || !b) return a == b; int i; for (i = 0; i < 4; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static void setup(void)
{
  int i;
  I.i.meta = &M; M._properties = &P; M._nproperties = 1; M._propdimsoffset = (char *)I.dims - (char *)&I; M._propdiminds = pind; pind[0] = 0; I.dims[0] = N;
  P.name = nm; P.type = TYPE; P.size = PSIZE;
#ifdef U_ARRAY
  static char *sh[1] = {"N"}; P.ndims = 1; P.shape = sh;
#endif
  if (TYPE == dliteRef) for (i = 0; i < DLITE_UUID_LENGTH; i++) { R[0].uuid[i] = "11111111-1111-1111-1111-111111111111"[i]; R[1].uuid[i] = "21111111-1111-1111-1111-111111111111"[i]; }
  R[0].uuid[DLITE_UUID_LENGTH] = R[1].uuid[DLITE_UUID_LENGTH] = 0; refs[0] = refs[1] = 0;
}
#if !defined U_CHECK && !defined U_WHOLE && !defined U_META
void h_prop(void)
{
  unsigned char from[CELL], *doc, *end = NULL; char *e2; void *d2; int s2 = -1, i, n, t, old = 5, swap = 0;
  setup();
  to = malloc(CELL);
  for (i = 0; i < CELL; i++) { from[i] = nondet_uchar(); to[i] = 0; }
  void **fp = (void **)from, **tp = (void **)to; DLiteRelation *fr = (DLiteRelation *)from, *tr = (DLiteRelation *)to; (void)fp; (void)tp; (void)fr; (void)tr;
  for (i = 0; i < N; i++) {
    if (TYPE == dliteBool) __CPROVER_assume(from[i] <= 1);
    if (TYPE == dliteStringPtr) { fp[i] = P.ndims ? fix(i + 1) : nondet_int() ? text() : NULL; }
    if (TYPE == dliteRef) { int x = P.ndims ? (MASK >> 2*i & 3) == 3 ? -1 : MASK >> 2*i & 3 : nondet_int(); fp[i] = x == 0 ? NULL : x > 0 ? &R[0] : &R[1]; }
    if (TYPE == dliteRelation) { fr[i].s = fix(4*i + 0); fr[i].p = fix(4*i + 1); fr[i].o = fix(4*i + 2); fr[i].d = fix(4*i + 3); fr[i].id = NULL; }
  }
#ifdef ISNAN
  { ISNAN x; memcpy(&x, from, sizeof x); __CPROVER_assume(x == x); }
#endif
  n = append_property(NULL, 0, &P, I.dims, from);
  __CPROVER_assert(n > 0, "size of the element");
  doc = malloc(5 + 100 + CELL*2); put: bson_init_document(doc, 5);
  __CPROVER_assert(append_property(doc, n, &P, I.dims, from) == n, "the size is the same with and without a buffer");
  __CPROVER_assert(bson_docsize(doc) == 5 + n && doc[4 + n] == 0, "the size reported is the size written");
  t = bson_parse(doc, &e2, &d2, &s2, &end);
  __CPROVER_assert(e2[0] == 'a' && e2[1] == 'b' && !e2[2], "name");
  __CPROVER_assert(end == doc + 4 + n, "one element");
  if (t == bsonNull) {
    __CPROVER_assert((TYPE == dliteStringPtr || TYPE == dliteRef) && !P.ndims && fp[0] == NULL, "null stands for NULL");
  } else {
#ifdef U_ARRAY
    __CPROVER_assert(check_array_property(&I.i, 0, t, d2, s2) == 0, "what was written is accepted");
# ifdef U_SWAP
    swap = 1;
# endif
    __CPROVER_assert(set_array_property(&I.i, 0, d2, swap) == 0, "read back");
#else
    __CPROVER_assert(t == bsontype(P.type, P.size), "type of the element");
    __CPROVER_assert(set_scalar_property(&I.i, 0, d2) == 0, "read back");
#endif
  }
  for (i = 0; i < CELL && i < PSIZE*N; i++) {
    if (TYPE == dliteStringPtr || TYPE == dliteRef || TYPE == dliteRelation) break;
    __CPROVER_assert(to[i] == (swap ? from[i/PSIZE*PSIZE + PSIZE - 1 - i%PSIZE] : from[i]), "value read back");
  }
  for (i = 0; i < N; i++) {
    if (TYPE == dliteStringPtr) __CPROVER_assert(same(tp[i], fp[i]) || (P.ndims && !fp[i] && same(tp[i], "")), "string read back, NULL in arrays as empty");
    if (TYPE == dliteRef) __CPROVER_assert(tp[i] == fp[i], "reference read back");
    if (TYPE == dliteRelation) __CPROVER_assert(same(tr[i].s, fr[i].s) && same(tr[i].p, fr[i].p) && same(tr[i].o, fr[i].o) && same(tr[i].d, fr[i].d) && !tr[i].id, "relation read back");
  }
  if (TYPE == dliteRef) { int c[2] = {0, 0}; for (i = 0; i < N; i++) { if (fp[i] == &R[0]) c[0]++; if (fp[i] == &R[1]) c[1]++; } __CPROVER_assert(refs[0] == c[0] && refs[1] == c[1], "one reference each"); }
  VF_REACH("prop");
}
#endif
#ifdef U_CHECK  /* an array element of another type or size is refused before it is read */
void h_check(void)
{
  unsigned char d[SIZE + 1]; int type = nondet_int(), i, nul = 0, ok; setup();
  for (i = 0; i < SIZE; i++) { d[i] = nondet_uchar(); nul += !d[i]; }
  if (TYPE == dliteRelation) ok = type == bsonArray;
  else if (TYPE == dliteStringPtr || TYPE == dliteRef) ok = type == bsonBinary && nul == N && (SIZE == 0 || d[SIZE - 1] == 0);
  else ok = type == bsonBinary && SIZE == N*PSIZE;
  __CPROVER_assert(!check_array_property(&I.i, 0, type, (char *)d, SIZE) == ok, "accepted exactly if the type and the size fit");
  VF_REACH("check");
}
#endif
#ifdef U_WHOLE  /* a whole data instance: what is written creates the same instance from the same metadata */
static DLiteParent par; static struct { DLiteInstance i; size_t dims[2]; } J; static unsigned char *jto, *ito; static int created, known, inds;
static const char *const URI = "http://a/i", *const META = "http://b/1/M"; static char idbuf[40];
int dlite_instance_is_meta(const DLiteInstance *inst) { return 0; }
int dlite_meta_get_property_index(const DLiteMeta *meta, const char *name) { return meta == &M && name[0] == 'a' && name[1] == 'b' && !name[2] ? 0 : -1; }
static int eqs(const char *a, const char *b) { int i; for (i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
DLiteInstance *dlite_instance_has(const char *id, bool check) { __CPROVER_assert(eqs(id, I.i.uri ? I.i.uri : R[0].uuid) && !check, "asks for its own id, in memory"); return known ? &R[0] : NULL; }
DLiteInstance *dlite_instance_create_from_id(const char *metaid, const size_t *dims, const char *id)
{
  __CPROVER_assert(eqs(metaid, META), "metadata"); __CPROVER_assert(eqs(id, I.i.uri ? I.i.uri : R[0].uuid), "id: the uri, or the uuid if there is none"); __CPROVER_assert(dims[0] == I.dims[0], "dimension");
  created++; J.i.meta = &M; J.i._refcount = 1; J.dims[0] = J.dims[1] = I.dims[0]; return &J.i;
}
int dlite_instance_decref(DLiteInstance *inst) { return --inst->_refcount; }
void h_whole(void)
{
  unsigned char from[8], back[8], *doc; size_t size = 0; int i; DLiteInstance *r; static DLiteDimension dim = {"n", "x"};
  setup(); M._ndimensions = 1; M._dimensions = &dim; M._dimoffset = (char *)I.dims - (char *)&I; M.uri = (char *)META; pind[0] = 0; I.dims[0] = 1; 
  for (i = 0; i < 8; i++) { from[i] = nondet_uchar(); back[i] = 0; }
  for (i = 0; i < DLITE_UUID_LENGTH; i++) I.i.uuid[i] = R[0].uuid[i] = "11111111-1111-1111-1111-111111111111"[i]; I.i.uuid[DLITE_UUID_LENGTH] = R[0].uuid[DLITE_UUID_LENGTH] = 0;
#ifdef NOURI
  I.i.uri = NULL;
#else
  I.i.uri = (char *)URI;
#endif
#ifdef PARENT
  I.i._parent = &par; for (i = 0; i < DLITE_UUID_LENGTH; i++) par.uuid[i] = "21111111-1111-1111-1111-111111111111"[i]; par.uuid[DLITE_UUID_LENGTH] = 0; for (i = 0; i < DLITE_HASH_SIZE; i++) par.hash[i] = nondet_uchar();
#else
  I.i._parent = NULL;
#endif
  J.i._parent = NULL; created = 0; known = KNOWN; refs[0] = 0;
  to = from; doc = dlite_bson_from_instance(&I.i, &size);
  __CPROVER_assert(doc != NULL && bson_docsize(doc) == size && doc[size - 1] == 0, "a document of the size");
  to = back; r = dlite_bson_load_instance(doc);
#if KNOWN
  __CPROVER_assert(r == &R[0] && refs[0] == 1 && !created, "an instance that exists is returned as a new reference");
#else
  __CPROVER_assert(r == &J.i && created == 1 && J.i._refcount == 1, "created once");
  for (i = 0; i < PSIZE*N; i++) __CPROVER_assert(back[i] == from[i], "value");
  __CPROVER_assert(!J.i._parent == !I.i._parent, "parent");
  if (J.i._parent) { for (i = 0; i <= DLITE_UUID_LENGTH; i++) __CPROVER_assert(J.i._parent->uuid[i] == par.uuid[i], "uuid of the parent"); for (i = 0; i < DLITE_HASH_SIZE; i++) __CPROVER_assert(J.i._parent->hash[i] == par.hash[i], "hash of the parent"); }
#endif
  free(doc);
  VF_REACH("whole");
}
#endif
#ifdef U_META   /* whole metadata: every field of every dimension and property comes back */
static DLiteMeta A_, B_, S_; static DLiteDimension ad[2], bd[2]; static DLiteProperty ap[2], bp[2]; static char *shape[2] = {"n", "m+1"}; static int created, inited; static char *descr, *got[4];
static const char *const URI = "http://a/1/E", *const META = "http://b/S", *const UU = "11111111-1111-1111-1111-111111111111";
static int eqs(const char *a, const char *b) { int i; if (!a || !b) return a == b; for (i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
int dlite_instance_is_meta(const DLiteInstance *inst) { return 1; }
void *dlite_instance_get_property(const DLiteInstance *inst, const char *name) { __CPROVER_assert(inst == (DLiteInstance *)&A_ && eqs(name, "description"), "its description"); return &descr; }
int dlite_type_set_typename(DLiteType t, size_t size, char *s, size_t n) { __CPROVER_assert((t == dliteInt && size == 4 || t == dliteRef && size == 8) && n >= 5, "a type"); s[0] = t == dliteInt ? 'i' : 'r'; s[1] = 0; return 0; }
int dlite_type_set_dtype_and_size(const char *name, DLiteType *t, size_t *size) { __CPROVER_assert((name[0] == 'i' || name[0] == 'r') && !name[1], "a type"); *t = name[0] == 'i' ? dliteInt : dliteRef; *size = name[0] == 'i' ? 4 : 8; return 0; }
int dlite_split_meta_uri(const char *uri, char **name, char **version, char **ns) { __CPROVER_assert(eqs(uri, URI), "its uri"); *name = strdup("E"); *version = strdup("1"); *ns = strdup("http://a"); return 0; }
bool dlite_meta_has_property(const DLiteMeta *meta, const char *name) { __CPROVER_assert(meta == &S_, "of its metadata"); return !(eqs(name, "namespace") && NONS); }
int dlite_instance_set_property(DLiteInstance *inst, const char *name, const void *ptr)
{ int k = eqs(name, "name") ? 0 : eqs(name, "version") ? 1 : eqs(name, "namespace") ? 2 : eqs(name, "description") ? 3 : -1; __CPROVER_assert(inst == (DLiteInstance *)&B_ && k >= 0, "a property of metadata"); got[k] = strdup(*(char **)ptr); return 0; }
int dlite_meta_init(DLiteMeta *meta) { __CPROVER_assert(meta == &B_ && bp[1].name && bd[1].name, "initialised when dimensions and properties are known"); inited++; return 0; }
DLiteInstance *dlite_instance_has(const char *id, bool check) { __CPROVER_assert(eqs(id, URI) && !check, "asks for its own id, in memory"); return NULL; }
int dlite_instance_decref(DLiteInstance *inst) { return 0; }
int dlite_meta_get_property_index(const DLiteMeta *meta, const char *name) { return -1; }
DLiteInstance *dlite_instance_create_from_id(const char *metaid, const size_t *dims, const char *id)
{
  __CPROVER_assert(eqs(metaid, META) && eqs(id, URI), "metadata and id"); __CPROVER_assert(dims[0] == 2 && dims[1] == 2, "numbers of dimensions and properties");
  created++; B_.uri = (char *)URI; B_.meta = &S_; B_._ndimensions = 2; B_._nproperties = 2; B_._dimensions = bd; B_._properties = bp; return (DLiteInstance *)&B_;
}
void h_meta(void)
{
  unsigned char *doc; size_t size = 0; int i, j; DLiteInstance *r; static DLiteDimension dims[2] = {{"nd", "x"}, {"np", "y"}};
  S_._ndimensions = 2; S_._dimensions = dims; S_.uri = (char *)META;
  S_._dimoffset = (char *)&A_._ndimensions - (char *)&A_;   /* as in the entity schema: the numbers of dimensions and properties */
  for (i = 0; i < DLITE_UUID_LENGTH; i++) A_.uuid[i] = UU[i]; A_.uuid[DLITE_UUID_LENGTH] = 0; A_.uri = (char *)URI; A_.meta = &S_; A_._parent = NULL;
  descr = DESCR; ad[0].name = "n"; ad[0].description = "one"; ad[1].name = "m"; ad[1].description = NULL;
  A_._ndimensions = 2; A_._nproperties = 2; A_._dimensions = ad; A_._properties = ap;
  ap[0].name = "p"; ap[0].type = dliteInt; ap[0].size = 4; ap[0].ndims = 2; ap[0].shape = shape; ap[0].unit = "u"; ap[0].description = NULL; ap[0].ref = NULL;
  ap[1].name = "q"; ap[1].type = dliteRef; ap[1].size = 8; ap[1].ndims = 0; ap[1].shape = NULL; ap[1].unit = NULL; ap[1].description = "dq"; ap[1].ref = "http://b/T";
  created = inited = 0; B_._parent = NULL; for (i = 0; i < 2; i++) { bp[i].unit = bp[i].description = bp[i].ref = bp[i].name = NULL; bp[i].ndims = 0; bp[i].shape = NULL; bd[i].name = NULL; } for (i = 0; i < 4; i++) got[i] = NULL;
  doc = dlite_bson_from_instance((DLiteInstance *)&A_, &size);
  __CPROVER_assert(doc != NULL && bson_docsize(doc) == size && doc[size - 1] == 0, "a document of the size");
  r = dlite_bson_load_instance(doc); free(doc);
  __CPROVER_assert(r == (DLiteInstance *)&B_ && created == 1 && inited == 1, "created and initialised once");
  __CPROVER_assert(eqs(got[0], "E") && eqs(got[1], "1") && eqs(got[2], NONS ? NULL : "http://a") && eqs(got[3], descr), "name, version, namespace, description");
  for (i = 0; i < 2; i++) {
    __CPROVER_assert(eqs(bd[i].name, ad[i].name) && eqs(bd[i].description, ad[i].description ? ad[i].description : ""), "dimension");
    __CPROVER_assert(eqs(bp[i].name, ap[i].name) && bp[i].type == ap[i].type && bp[i].size == ap[i].size, "property");
    __CPROVER_assert(eqs(bp[i].unit, ap[i].unit) && eqs(bp[i].description, ap[i].description) && eqs(bp[i].ref, ap[i].ref), "unit, description and reference");
    __CPROVER_assert(bp[i].ndims == ap[i].ndims, "number of dimensions"); for (j = 0; j < ap[i].ndims; j++) __CPROVER_assert(eqs(bp[i].shape[j], ap[i].shape[j]), "shape");
  }
  VF_REACH("meta");
}
#endif
