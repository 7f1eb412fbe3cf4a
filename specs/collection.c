/* K01: contracts for dlite-collection.c over the contract of a triplestore: a set of triples, read through one result
   that every further call overwrites (triplestore-redland.c).  Instances are counted references with a uuid. */
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include "err_stub.h"
#include "dlite-collection.c"
/* memset and strdup of libc, in a form the verifier evaluates cell by cell */
static void *vf_memset(void *p, int v, size_t n) { Triple *t = p; __CPROVER_assert(v == 0 && n == sizeof(Triple), "model: a triple is cleared"); t->s = t->p = t->o = t->d = t->id = NULL; return p; }
static char *vf_strdup(const char *s) { char *r = malloc(16); int i; for (i = 0; s[i]; i++) r[i] = s[i]; r[i] = 0; return r; }
#define memset vf_memset
#define strdup vf_strdup
#include "triple.c"
#undef memset
#undef strdup

#define CAP 10
#if defined U_HASH || defined U_PROP
# define FULL
#endif
static const char *const LAB[2] = {"a", "b"};
/* the texts of the universe; a text is represented by its number */
static const char *const W[] = {NULL, "a", "b", "_is-a", "_has-uuid", "_has-meta", "Instance", "m", "u1", "u2", "xsd:anyURI", "likes", ""};
enum {NONE, A, B, ISA, UUID, MT, INS, M, U1, U2, URI, LIKES, EMPTY, OTHER};
static int code(const char *s)
{
  if (!s) return NONE;
  switch (s[0]) {
  case 0: return EMPTY; case 'a': return A; case 'b': return B; case 'I': return INS; case 'm': return M; case 'x': return URI; case 'l': return LIKES;
  case 'u': return s[1] == '1' ? U1 : U2;
  case '_': return s[1] == 'i' ? ISA : s[1] == 'h' && s[5] == 'u' ? UUID : s[1] == 'h' && s[5] == 'm' ? MT : OTHER;
  default: return OTHER; }
}
typedef struct { int s, p, o, d; } Codes;
struct _TripleStore { int n; Codes t[CAP]; Triple cur; int freed; };
static int match(const Codes *t, int s, int p, int o, int d)
{ return (s == NONE || s == t->s) && (p == NONE || p == t->p) && (o == NONE || o == t->o) && (d == NONE || d == (t->d ? t->d : EMPTY)); }
static char R0[16], R1[16], R2[16], R3[16], S0[16], S1[16], S2[16], S3[16]; static int gen;
static char *copy(char *r, int c)
{
  const char *s = W[c]; if (!s) return NULL;
#ifdef FULL
  int i;
  for (i = 0; s[i]; i++) r[i] = s[i]; r[i] = 0;
#else
  r[0] = s[0]; r[1] = s[0] ? s[1] : 0; r[5] = c == UUID || c == MT ? s[5] : 0;     /* what code() looks at */
#endif
  return r;
}
static TripleStore T;      /* the only one */
static const Triple *result(int i)      /* whatever was returned before is gone */
{
  if (gen) {
    gen = 0; T.cur.s = copy(R0, T.t[i].s); T.cur.p = copy(R1, T.t[i].p); T.cur.o = copy(R2, T.t[i].o); T.cur.d = copy(R3, T.t[i].d);
    S0[0] = S1[0] = S2[0] = S3[0] = '?';
  } else {
    gen = 1; T.cur.s = copy(S0, T.t[i].s); T.cur.p = copy(S1, T.t[i].p); T.cur.o = copy(S2, T.t[i].o); T.cur.d = copy(S3, T.t[i].d);
    R0[0] = R1[0] = R2[0] = R3[0] = '?';
  }
  return &T.cur;
}
static void put(int s, int p, int o, int d);
static int add(int s, int p, int o, int d)
{
  int i; for (i = 0; i < T.n; i++) if (match(&T.t[i], s, p, o, d ? d : EMPTY)) return 0;
  __CPROVER_assert(s < EMPTY && p < EMPTY && o < EMPTY && d < EMPTY, "no other texts are added");
  __CPROVER_assert(T.n < CAP, "model: room");
  T.t[T.n].s = s; T.t[T.n].p = p; T.t[T.n].o = o; T.t[T.n].d = d; T.n++;
  return 0;
}
int triplestore_add(TripleStore *ts, const char *s, const char *p, const char *o, const char *d) { return add(code(s), code(p), code(o), code(d)); }
int triplestore_add_triples(TripleStore *ts, const Triple *t, size_t n) { size_t i; for (i = 0; i < n; i++) triplestore_add(ts, t[i].s, t[i].p, t[i].o, t[i].d); return 0; }
int triplestore_remove(TripleStore *ts, const char *s0, const char *p0, const char *o0, const char *d0)
{
  int i, k = 0, m = T.n, s = code(s0), p = code(p0), o = code(o0), d = code(d0);
  for (i = 0; i < m; i++) if (!match(&T.t[i], s, p, o, d)) { if (k < i) T.t[k] = T.t[i]; k++; }
  T.n = k; return m - k;
}
void triplestore_clear(TripleStore *ts) { T.n = 0; }
size_t triplestore_length(TripleStore *ts) { return T.n; }
void triplestore_init_state(TripleStore *ts, TripleState *st) { st->ts = ts; st->pos = 0; st->data = NULL; }
void triplestore_deinit_state(TripleState *st) { }
void triplestore_reset_state(TripleState *st) { st->pos = 0; }
const Triple *triplestore_find(TripleState *st, const char *s0, const char *p0, const char *o0, const char *d0)
{
  int s = code(s0), p = code(p0), o = code(o0), d = code(d0);
  while ((int)st->pos < T.n) { int i = st->pos++; if (match(&T.t[i], s, p, o, d)) return result(i); }
  return NULL;
}
const Triple *triplestore_next(TripleState *st) { return triplestore_find(st, NULL, NULL, NULL, NULL); }
const Triple *triplestore_find_first(const TripleStore *ts, const char *s, const char *p, const char *o, const char *d)
{ TripleState st; st.pos = 0; return triplestore_find(&st, s, p, o, d); }
TripleStore *triplestore_create() { TripleStore *t = calloc(1, sizeof(TripleStore)); return t; }
void triplestore_free(TripleStore *ts) { ts->freed++; }
const char *triplestore_value(TripleStore *ts, const char *s, const char *p, const char *o, const char *d, const char *f, int any) { return NULL; }

static DLiteInstance INST0, INST1; static DLiteMeta META;
#define INSTP(i) ((i) ? &INST1 : &INST0)
static int rc[2];
int dlite_instance_incref(DLiteInstance *i) { __CPROVER_assert(i == &INST0 || i == &INST1, "an instance"); return ++i->_refcount; }
int dlite_instance_decref(DLiteInstance *i)
{ __CPROVER_assert(i == &INST0 || i == &INST1, "an instance"); __CPROVER_assert(i->_refcount > 0, "a reference is released that is not held"); return --i->_refcount; }
DLiteInstance *dlite_instance_get(const char *id)
{ int i; for (i = 0; i < 2; i++) if (INSTP(i)->_refcount > 0 && code(id) == U1 + i) { INSTP(i)->_refcount++; return INSTP(i); } return NULL; }
DLiteInstance *dlite_instance_has(const char *id, bool c)
{ int i; for (i = 0; i < 2; i++) if (INSTP(i)->_refcount > 0 && code(id) == U1 + i) return INSTP(i); return NULL; }
DLiteIdType dlite_get_uuid(char *buff, const char *id) { buff[0] = id[0]; buff[1] = id[1]; buff[2] = 0; return 0; }

static DLiteCollection C; static DLiteMeta CMETA; static size_t IND[1];
static int has[2], own[2], ext[2], nlikes;
static void put(int s, int p, int o, int d) { T.t[T.n].s = s; T.t[T.n].p = p; T.t[T.n].o = o; T.t[T.n].d = d; T.n++; }
/* an arbitrary valid collection of up to two instances under labels a and b and one more relation, in one of several orders */
static void setup(int c)
{
  int i, k, rev = c & 1;
  T.n = T.freed = 0; T.cur.s = T.cur.p = T.cur.o = T.cur.d = T.cur.id = NULL;
  META.uri = "m";
  nlikes = c >> 1 & 1; has[0] = c >> 2 & 1; own[0] = c >> 3 & 1; has[1] = c >> 4 & 1; own[1] = c >> 5 & 1;
  for (i = 0; i < 2; i++) {
    INSTP(i)->uuid[0] = 'u'; INSTP(i)->uuid[1] = '1' + i; INSTP(i)->uuid[2] = 0; INSTP(i)->meta = &META;
    ext[i] = EXT >> i & 1 ? 2 : 0;
  }
  for (i = 0; i < 2; i++) INSTP(i)->_refcount = ext[i];
  for (i = 0; i < 2; i++) if (has[i]) INSTP(own[i])->_refcount++;
  for (k = 0; k < 2; k++) {
    i = rev ? 1 - k : k;
    if (k && nlikes) put(A, LIKES, B, 0);
    if (has[i]) { if (rev) put(A + i, MT, M, 0); put(A + i, ISA, INS, 0); put(A + i, UUID, U1 + own[i], URI); if (!rev) put(A + i, MT, M, 0); }
  }
  C.rstore = &T; C.nrelations = 0; C.meta = &CMETA; CMETA.uri = "m"; CMETA._propdimsoffset = offsetof(DLiteCollection, __propdims); CMETA._propdiminds = IND;
}
#ifndef NCFG
# define NCFG 64
#endif
#define ALL(f) int c; for (c = 0; c < NCFG; c++) if ((c >> 2 & 3) != 2 && (c >> 4 & 3) != 2) f
static int count(int s, int p, int o, int d) { int i, n = 0; for (i = 0; i < T.n; i++) n += match(&T.t[i], s, p, o, d); return n; }
/* the collection has exactly instance o[i] under label i if h[i], and the other relation */
static void state(const int *h, const int *o)
{
  int i;
  for (i = 0; i < 2; i++) {
    __CPROVER_assert(count(A + i, ISA, INS, EMPTY) == h[i] && count(A + i, ISA, 0, 0) == h[i], "the label is in the collection exactly if it was put there");
    __CPROVER_assert(count(A + i, UUID, 0, 0) == h[i] && (!h[i] || count(A + i, UUID, U1 + o[i], URI) == 1), "it stands for the instance it was put for");
    __CPROVER_assert(count(A + i, MT, 0, 0) == h[i] && (!h[i] || count(A + i, MT, M, EMPTY) == 1), "with its metadata");
  }
  __CPROVER_assert(T.n == 3*h[0] + 3*h[1] + nlikes && count(A, LIKES, B, EMPTY) == nlikes, "no relation is lost or added");
}
static void refs(const int *h, const int *o, int d0, int d1)
{
  int i, n[2]; n[0] = ext[0] + d0; n[1] = ext[1] + d1;
  for (i = 0; i < 2; i++) if (h[i]) n[o[i]]++;
  __CPROVER_assert(INST0._refcount == n[0] && INST1._refcount == n[1], "the collection holds one reference for every instance in it");
}
#if defined U_ADD
static void one(int c, int l, int i, int isnew)
{
  int r; setup(c); if (!ext[i]) return;
  int h[2] = {has[0], has[1]}, o[2] = {own[0], own[1]};
  r = isnew ? dlite_collection_add_new(&C, LAB[l], INSTP(i)) : dlite_collection_add(&C, LAB[l], INSTP(i));
  __CPROVER_assert((r != 0) == h[l], "refused exactly if the label is taken");
  if (!r) { h[l] = 1; o[l] = i; }
  state(h, o);
  refs(h, o, !r && isnew && i == 0 ? -1 : 0, !r && isnew && i == 1 ? -1 : 0);
}
void h_add(void) { ALL(one)(c, L, I, ISNEW); VF_REACH("add"); }
#elif defined U_REMOVE
static void one(int c, int l)
{
  int r; setup(c);
  int h[2] = {has[0], has[1]};
  r = dlite_collection_remove(&C, LAB[l]);
  __CPROVER_assert((r == 0) == has[l], "refused exactly if there is no such label");
  h[l] = 0; state(h, own); refs(h, own, 0, 0);
}
void h_remove(void) { ALL(one)(c, L); VF_REACH("remove"); }
#elif defined U_QUERY
static void one(int c, int l, int j)
{
  const DLiteInstance *p; setup(c);
  p = dlite_collection_get(&C, LAB[l]);
  __CPROVER_assert(p == (has[l] ? INSTP(own[l]) : NULL), "the instance under the label, or none"); refs(has, own, 0, 0);
  p = dlite_collection_get_new(&C, LAB[l], NULL);
  __CPROVER_assert(p == (has[l] ? INSTP(own[l]) : NULL), "the instance under the label, or none");
  refs(has, own, p == &INST0, p == &INST1);
  if (p) dlite_instance_decref((DLiteInstance *)p);
  __CPROVER_assert(!!dlite_collection_has(&C, LAB[l]) == has[l], "whether there is such a label");
  __CPROVER_assert(!!dlite_collection_has_id(&C, j ? "u2" : "u1") == ((has[0] && own[0] == j) || (has[1] && own[1] == j)), "whether the instance is in the collection");
  __CPROVER_assert(dlite_collection_count(&C) == has[0] + has[1], "the number of instances");
  refs(has, own, 0, 0); state(has, own);
}
void h_query(void) { ALL(one)(c, L, L); VF_REACH("query"); }
static void next(int c)
{
  DLiteCollectionState st; DLiteInstance *p; int n[2] = {0, 0}, i; setup(c);
  dlite_collection_init_state(&C, &st);
  for (i = 0; i < 3 && (p = dlite_collection_next(&C, &st)); i++) { n[p == &INST1]++; refs(has, own, 0, 0); }
  __CPROVER_assert(i <= 2 && n[0] == (has[0] && !own[0]) + (has[1] && !own[1]) && n[1] == (has[0] && own[0]) + (has[1] && own[1]), "every instance in the collection is visited once");
  dlite_collection_deinit_state(&st); state(has, own);
}
void h_next(void) { ALL(next)(c); VF_REACH("next"); }
static void deinit(int c)
{
  static const int none[2] = {0, 0}; setup(c);
  __CPROVER_assert(dlite_collection_deinit((DLiteInstance *)&C) == 0, "freed");
  refs(none, none, 0, 0); __CPROVER_assert(T.freed == 1, "the relations are freed");
}
void h_deinit(void) { ALL(deinit)(c); VF_REACH("deinit"); }
#elif defined U_REL
static void one(int c, int k)
{
  int w; setup(c);
  static const char *const q[4][4] = {{"a", "likes", "b", NULL}, {"a", "likes", NULL, NULL}, {"b", "likes", NULL, NULL}, {NULL, "likes", NULL, NULL}};
  w = count(code(q[k][0]), LIKES, code(q[k][2]), 0);
  __CPROVER_assert((dlite_collection_find_first(&C, q[k][0], q[k][1], q[k][2], NULL) != NULL) == (w > 0), "a relation that matches is found");
  __CPROVER_assert(dlite_collection_remove_relations(&C, q[k][0], q[k][1], q[k][2], NULL) == w, "the number of relations removed");
  nlikes -= w; state(has, own);
  __CPROVER_assert(dlite_collection_add_relation(&C, "a", "likes", "b", NULL) == 0, "added"); nlikes = 1; state(has, own);
  __CPROVER_assert(dlite_collection_add_relation(&C, "a", "likes", "b", NULL) == 0, "added again"); state(has, own);
  refs(has, own, 0, 0);
}
void h_relation(void) { ALL(one)(c, K); VF_REACH("relation"); }
#elif defined U_PROP
size_t dlite_instance_get_dimension_size_by_index(const DLiteInstance *inst, size_t i) { return dlite_collection_getdim(inst, i); }
static void one(int c)        /* relations written to the property and read back */
{
  Triple REL[CAP] = {{0}}; int i, n; setup(c); n = T.n; C.relations = REL; C.nrelations = n;
  __CPROVER_assert(dlite_collection_getdim((DLiteInstance *)&C, 0) == n && dlite_collection_saveprop((DLiteInstance *)&C, 0) == 0, "saved");
  state(has, own);
  for (i = 0; i < n; i++) __CPROVER_assert(count(code(REL[i].s), code(REL[i].p), code(REL[i].o), REL[i].d ? code(REL[i].d) : EMPTY) == 1, "a relation of the collection");
  triplestore_clear(&T);
  /* the references of the old collection have been released in the meantime */
  for (i = 0; i < 2; i++) if (!ext[i]) ext[i] = 1;
  INST0._refcount = ext[0]; INST1._refcount = ext[1];
  __CPROVER_assert(dlite_collection_loadprop((DLiteInstance *)&C, 0) == 0, "loaded");
  state(has, own); refs(has, own, 0, 0);
  __CPROVER_assert(dlite_collection_loadprop((DLiteInstance *)&C, 0) == 0, "loaded again");
  state(has, own); refs(has, own, 0, 0);
}
void h_prop(void) { ALL(one)(c); VF_REACH("prop"); }
#elif defined U_HASH
/* the stream of bytes that is hashed, as (length, first, last) of every piece */
typedef struct { size_t n; char a, b; } Piece;
static Piece got[60], want[60]; static int ngot, nwant, init;
sha3_return_t sha3_Init(sha3_context *c, unsigned bits) { __CPROVER_assert(bits == 8*DLITE_HASH_SIZE, "size of the hash"); init++; ngot = 0; return 0; }
enum SHA3_FLAGS sha3_SetFlags(sha3_context *c, enum SHA3_FLAGS f) { return f; }
void sha3_Update(sha3_context *c, const void *p, size_t n) { __CPROVER_assert(ngot < 60, "model: room"); got[ngot].n = n; got[ngot].a = n ? ((const char *)p)[0] : 0; got[ngot].b = n ? ((const char *)p)[n - 1] : 0; ngot++; }
static unsigned char DIG[64];
const void *sha3_Finalize(sha3_context *c) { return DIG; }
int dlite_instance_get_hash(const DLiteInstance *inst, uint8_t *hash, int n) { hash[0] = inst == &INST1; return 0; }
int strhex_encode(char *hex, size_t hexsize, const unsigned char *data, size_t size) { __CPROVER_assert(hexsize > 2*size && size == DLITE_HASH_SIZE, "room"); hex[0] = 'h'; hex[2*size - 1] = data[0] ? 'y' : 'x'; return 2*size; }
void qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
  const void **b = base, *x; size_t i, j; __CPROVER_assert(size == sizeof(void *), "model: array of pointers");
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(&b[j - 1], &b[j]) > 0; j--) { x = b[j]; b[j] = b[j - 1]; b[j - 1] = x; }
}
static void w(size_t n, char a, char b) { want[nwant].n = n; want[nwant].a = a; want[nwant].b = b; nwant++; }
static void label(int i)           /* the relations of one label in alphabetic order */
{
  char c = 'a' + i;
  if (has[i]) { w(1, c, c); w(9, '_', 'a'); w(1, 'm', 'm'); }
  if (has[i]) { w(1, c, c); w(9, '_', 'h'); w(2*DLITE_HASH_SIZE, 'h', own[i] ? 'y' : 'x'); w(1, c, c); w(9, '_', 'd'); w(2, 'u', '1' + own[i]); w(10, 'x', 'I'); }
  if (has[i]) { w(1, c, c); w(5, '_', 'a'); w(8, 'I', 'e'); }
}
static void one(int c)
{
  uint8_t h[DLITE_HASH_SIZE]; int i; setup(c); C._parent = NULL;
  __CPROVER_assert(dlite_collection_gethash((DLiteInstance *)&C, h, DLITE_HASH_SIZE) == 0, "hashed");
  nwant = 0; w(1, 'm', 'm');
  label(0); if (nlikes) { w(1, 'a', 'a'); w(5, 'l', 's'); w(1, 'b', 'b'); } label(1);
  __CPROVER_assert(ngot == nwant, "every relation is hashed, in alphabetic order");
  for (i = 0; i < nwant; i++) __CPROVER_assert(got[i].n == want[i].n && got[i].a == want[i].a && got[i].b == want[i].b, "every relation and the hash of every instance is hashed, in alphabetic order");
  for (i = 0; i < DLITE_HASH_SIZE; i++) __CPROVER_assert(h[i] == DIG[i], "the digest is returned");
  refs(has, own, 0, 0); state(has, own);
}
void h_hash(void) { ALL(one)(c); VF_REACH("hash"); }
#elif defined U_LOAD
int nload[2]; static DLiteStorage *S;
/* the storage gives the collection, and every instance once */
DLiteInstance *dlite_instance_load(const DLiteStorage *s, const char *id)
{
  int i; if (id[0] == 'c') return (DLiteInstance *)&C;
  for (i = 0; i < 2; i++) if (code(id) == U1 + i) { nload[i]++; INSTP(i)->_refcount++; return INSTP(i); }
  __CPROVER_assert(0, "something else is loaded"); return NULL;
}
static void one(int c, int lazy, int f)
{
  int i, n[2]; setup(c);
  for (i = 0; i < 2; i++) { if (f >> i & 1) { INSTP(i)->_refcount = ext[i] = 0; } else if (!ext[i]) INSTP(i)->_refcount += ext[i] = 1; n[i] = INSTP(i)->_refcount; nload[i] = 0; }
  __CPROVER_assert(dlite_collection_load(S, "c", lazy) == &C, "loaded");
  for (i = 0; i < 2; i++) {
    int in = (has[0] && own[0] == i) + (has[1] && own[1] == i);
    __CPROVER_assert(nload[i] == (!lazy && n[i] == 0 ? in : 0), "every instance of the collection that is not in memory is asked for once for every label");
    __CPROVER_assert(INSTP(i)->_refcount == n[i] + nload[i], "one reference for every label");
  }
  state(has, own);
}
void h_load(void) { ALL(one)(c, LAZY, MISSING); VF_REACH("load"); }
#endif
