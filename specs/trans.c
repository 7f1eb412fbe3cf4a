/* I02: transactions. dlite-entity.c: set_parent, verify_hash, get_snapshot; what the hash covers. */
#include "config.h"
#include "err_stub.h"
#include <limits.h>
size_t g_k, g_pos, *g_P; int *g_I;
#if defined U_STREAM || defined U_ELEM
#include <stdlib.h>
#endif
#ifdef U_ELEM
#include "dlite-type.c"
#else
#include "dlite-entity.c"
#endif
#define RET __CPROVER_return_value
int dlite_err(int eval, const char *msg, ...) { return eval; }
int dlite_errx(int eval, const char *msg, ...) { return eval; }

#if defined U_PARENT || defined U_VERIFY
/* the hash of an instance, as dlite_instance_get_hash() calculates it: arbitrary but fixed per instance */
static DLiteInstance A, B, C;                 /* the instance, its parent, another one */
static DLiteParent P;
uint8_t g_hashA[DLITE_HASH_SIZE], g_hashB[DLITE_HASH_SIZE], g_hashC[DLITE_HASH_SIZE]; int g_hashfail;
int dlite_instance_get_hash(const DLiteInstance *inst, uint8_t *hash, int hashsize)
__CPROVER_requires(hashsize == DLITE_HASH_SIZE && __CPROVER_w_ok(hash, DLITE_HASH_SIZE))
__CPROVER_requires(inst == &A || inst == &B || inst == &C)
__CPROVER_assigns(__CPROVER_object_upto(hash, DLITE_HASH_SIZE))
__CPROVER_ensures(RET == g_hashfail)
#define E1(i) (hash[i] == (inst == &A ? g_hashA : inst == &B ? g_hashB : g_hashC)[i])
#define E4(i) (E1(i) && E1(i+1) && E1(i+2) && E1(i+3))
__CPROVER_ensures(E4(0) && E4(4) && E4(8) && E4(12) && E4(16) && E4(20) && E4(24) && E4(28));
int g_dec; const DLiteInstance *g_decinst;
/* in terms of the objects, so that the verifier keeps track of them: the contract of decref (property I03) */
int dlite_instance_decref(DLiteInstance *inst)
__CPROVER_requires(inst == &B || inst == &C) __CPROVER_requires(inst != &B || B._refcount > 0) __CPROVER_requires(inst != &C || C._refcount > 0)
__CPROVER_assigns(B._refcount, C._refcount, g_dec, g_decinst)
__CPROVER_ensures(g_dec == __CPROVER_old(g_dec) + 1 && g_decinst == inst)
__CPROVER_ensures(B._refcount == __CPROVER_old(B._refcount) - (inst == &B ? 1 : 0) && C._refcount == __CPROVER_old(C._refcount) - (inst == &C ? 1 : 0));
#endif

#ifdef U_PARENT
/* OLD: NULL, &C (another parent) or &B (the same one) */
#define OLDP (HASOLD ? __CPROVER_old(P.parent) : NULL)
int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
__CPROVER_requires(inst == &A && parent == &B)
__CPROVER_assigns(A._parent, P, B._refcount, C._refcount, g_dec, g_decinst)
/* a mutable parent, an immutable child or a parent without hash: refused, nothing changes */
__CPROVER_ensures(((A._flags & dliteImmutable) || !(B._flags & dliteImmutable) || g_hashfail) ==> RET != 0)
__CPROVER_ensures(RET != 0 ==> (B._refcount == __CPROVER_old(B._refcount) && C._refcount == __CPROVER_old(C._refcount) && A._parent == __CPROVER_old(A._parent)))
__CPROVER_ensures((RET != 0 && HASOLD) ==> P.parent == __CPROVER_old(P.parent))
__CPROVER_ensures((RET != 0 && HASOLD && g_k < DLITE_HASH_SIZE) ==> P.hash[g_k] == __CPROVER_old(P.hash[g_k < DLITE_HASH_SIZE ? g_k : 0]))
__CPROVER_ensures(RET == 0 ==> (A._parent != NULL && A._parent->parent == &B))
/* one new reference to the parent, the old parent's one is released */
__CPROVER_ensures((RET == 0 && !HASOLD) ==> (B._refcount == __CPROVER_old(B._refcount) + 1 && C._refcount == __CPROVER_old(C._refcount)))
__CPROVER_ensures((RET == 0 && OLDP == &C) ==> (B._refcount == __CPROVER_old(B._refcount) + 1 && C._refcount == __CPROVER_old(C._refcount) - 1))
__CPROVER_ensures((RET == 0 && OLDP == &B) ==> (B._refcount == __CPROVER_old(B._refcount) && C._refcount == __CPROVER_old(C._refcount)))
/* it records the parent's hash and uuid */
__CPROVER_ensures((RET == 0 && g_k < DLITE_HASH_SIZE) ==> A._parent->hash[g_k] == g_hashB[g_k])
__CPROVER_ensures((RET == 0 && g_pos <= DLITE_UUID_LENGTH) ==> A._parent->uuid[g_pos] == B.uuid[g_pos])
;
void harness(void)
{
  size_t k, p; _Bool same; g_k = k; g_pos = p; g_dec = 0;
  __CPROVER_assume(B._refcount > 0 && B._refcount < 1000000 && C._refcount > 0 && C._refcount < 1000000);
  __CPROVER_assume(B.uuid[DLITE_UUID_LENGTH] == 0);
  for (int i = 0; i < DLITE_UUID_LENGTH; i++) __CPROVER_assume(B.uuid[i] != 0);
  A._parent = HASOLD ? &P : NULL; A.uri = B.uri = NULL;
  P.parent = same ? &B : &C;
  if (dlite_instance_set_parent(&A, &B) == 0) VF_REACH("parent");
}
#endif

#ifdef U_VERIFY
int g_sub, g_rec; _Bool g_loaded, g_avail; uint8_t *g_h; int g_get;
DLiteInstance *dlite_instance_get(const char *id)
__CPROVER_requires(id == P.uuid)          /* the parent is looked up by its recorded uuid */
__CPROVER_assigns(g_get, B._refcount)
__CPROVER_ensures(g_get == __CPROVER_old(g_get) + 1 && RET == (g_avail ? &B : NULL))
__CPROVER_ensures(B._refcount == __CPROVER_old(B._refcount) + (g_avail ? 1 : 0));
_Bool g_match;   /* the given hash is that of the instance */
#define MATCH(h) g_match
/* own hash correct, and -- when checked recursively or without own hash -- the chain from the parent on verifies
   (g_sub: the result of this same contract for the parent with the recorded hash) */
size_t g_wit;    /* where two different arrays differ (fixed in advance, all values explored) */
int memcmp(const void *a, const void *b, size_t n)
__CPROVER_requires(n == DLITE_HASH_SIZE && __CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)) __CPROVER_assigns()
__CPROVER_ensures((RET == 0 && g_k < n) ==> ((const uint8_t *)a)[g_k] == ((const uint8_t *)b)[g_k])
__CPROVER_ensures(RET != 0 ==> (g_wit < n && ((const uint8_t *)a)[g_wit] != ((const uint8_t *)b)[g_wit]));
#define HASPAR (A._parent != NULL)
#define PARTHERE (g_loaded || g_avail)
int dlite_instance_verify_hash(const DLiteInstance *inst, uint8_t *hash, int recursive)
__CPROVER_requires((inst == &A && hash == g_h && recursive == g_rec) || (inst == &B && hash == P.hash && (recursive != 0) == (g_rec != 0)))
__CPROVER_assigns(B._refcount, C._refcount, g_get, g_dec, g_decinst)
__CPROVER_ensures(inst == &B ==> (RET == g_sub && B._refcount == __CPROVER_old(B._refcount) && g_get == __CPROVER_old(g_get) && g_dec == __CPROVER_old(g_dec)))
__CPROVER_ensures((inst == &A && g_h && g_hashfail) ==> RET != 0)
__CPROVER_ensures((inst == &A && g_h && g_k < DLITE_HASH_SIZE && g_h[g_k] != g_hashA[g_k]) ==> RET != 0)
__CPROVER_ensures((inst == &A && HASPAR && !PARTHERE) ==> RET != 0)
__CPROVER_ensures((inst == &A && HASPAR && (g_rec || !g_h) && g_sub) ==> RET != 0)
__CPROVER_ensures((inst == &A && (!g_h || (!g_hashfail && MATCH(g_h))) && (!HASPAR || (PARTHERE && (!g_sub || (!g_rec && g_h))))) ==> RET == 0)
/* references taken are given back */
__CPROVER_ensures(inst == &A ==> B._refcount == __CPROVER_old(B._refcount))
;
void harness(void)
{
  int sub, rec; _Bool l, a, hp; static uint8_t H[DLITE_HASH_SIZE];
  g_sub = sub; g_rec = rec; g_loaded = l; g_avail = a; g_get = 0; g_dec = 0; g_h = WITHHASH ? H : NULL;
  size_t k, w; _Bool eq; g_k = k; g_wit = w; g_match = eq; if (eq) memcpy(H, g_hashA, DLITE_HASH_SIZE);
  A._parent = hp ? &P : NULL; A.uri = NULL; P.parent = l ? &B : NULL;
  __CPROVER_assume(B._refcount > 0 && B._refcount < 1000000);
  if (dlite_instance_verify_hash(&A, g_h, rec) == 0) VF_REACH("verified"); else VF_REACH("refused");
}
#endif

#ifdef U_SNAP
/* snapshot n is the n-th ancestor */
static DLiteInstance I[4]; static DLiteParent Q[4]; static int g_len;
DLiteInstance *dlite_instance_get(const char *id) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0);
const DLiteInstance *dlite_instance_get_snapshot(const DLiteInstance *inst, int n)
__CPROVER_requires(inst == &I[0])
__CPROVER_assigns()
__CPROVER_ensures((n < 0 || n > g_len) ==> RET == NULL)
__CPROVER_ensures((n >= 0 && n <= g_len) ==> RET == &I[n])
;
void harness(void)
{
  int len, n, i; g_len = len; __CPROVER_assume(len >= 0 && len <= 3);
  for (i = 0; i < 4; i++) { I[i]._parent = i < len ? &Q[i] : NULL; if (i < 3) Q[i].parent = &I[i+1]; }
  if (dlite_instance_get_snapshot(&I[0], n)) VF_REACH("snapshot"); else VF_REACH("none");
}
#endif

#if defined U_STREAM || defined U_ELEM
/* the byte stream that is hashed: its length so far and its byte at the arbitrary position g_pos */
size_t g_len; uint8_t g_byte; int g_fin;
void sha3_Update(sha3_context *c, void const *buf, size_t len)
__CPROVER_requires(g_fin == 0 && len < 100000 && __CPROVER_r_ok(buf, len))
__CPROVER_assigns(g_len, g_byte)
__CPROVER_ensures(g_len == __CPROVER_old(g_len) + len)
__CPROVER_ensures(g_byte == ((g_pos >= __CPROVER_old(g_len) && g_pos - __CPROVER_old(g_len) < len) ? ((const uint8_t *)buf)[g_pos - __CPROVER_old(g_len)] : __CPROVER_old(g_byte)));
#endif
#ifdef U_STREAM
sha3_return_t sha3_Init(sha3_context *c, unsigned bits) __CPROVER_requires(bits == 8*DLITE_HASH_SIZE && g_len == 0 && !g_fin) __CPROVER_assigns() __CPROVER_ensures(1);
enum SHA3_FLAGS sha3_SetFlags(sha3_context *c, enum SHA3_FLAGS f) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
int dlite_type_is_allocated(DLiteType t) { return t == dliteStringPtr; }   /* for the types used here; proved in T01 */
static uint8_t DIG[DLITE_HASH_SIZE];
void const *sha3_Finalize(sha3_context *c) __CPROVER_requires(g_fin == 0) __CPROVER_assigns(g_fin) __CPROVER_ensures(g_fin == 1 && RET == DIG);
/* the stream is: parent uuid, parent hash, metadata uri, dimensions (64 bit), property values */
#ifdef STR
#define T1 dliteStringPtr
#define Z1 8
#else
#define T1 dliteInt
#define Z1 4
#endif
static char URI[2]; static DLiteMeta M; static DLiteProperty PR[2]; static DLiteParent P; static char *SH[1];
static struct { DLiteInstance h; size_t dim[2]; char v0[8]; void *v1; size_t pd[2]; } X;
static size_t PO[4], PDI[2]; static char VAL[2*Z1]; static char *SV[2]; static char S0[2], S1[2];
/* contract of the element hash, proved in the units elem_* : a string contributes its characters */
int dlite_type_update_sha3(sha3_context *c, const void *ptr, DLiteType dtype, size_t size)
__CPROVER_requires(dtype == dliteStringPtr && size == 8 && (ptr == &SV[0] || ptr == &SV[1]))
__CPROVER_assigns(g_len, g_byte)
__CPROVER_ensures(RET == 0)
__CPROVER_ensures(*(char **)ptr == NULL ==> (g_len == __CPROVER_old(g_len) && g_byte == __CPROVER_old(g_byte)))
__CPROVER_ensures(*(char **)ptr != NULL ==> (g_len == __CPROVER_old(g_len) + (**(char **)ptr ? 1 : 0) && g_byte == ((g_pos == __CPROVER_old(g_len) && **(char **)ptr) ? (uint8_t)**(char **)ptr : __CPROVER_old(g_byte))));
#define ULEN (URI[0] ? 1 : 0)
#define SLEN(i) (SV[i] ? (SV[i][0] ? 1 : 0) : 0)
#define O_URI (X.h._parent ? DLITE_UUID_LENGTH + DLITE_HASH_SIZE : 0)
#define O_DIM (O_URI + ULEN)
#define O_V0 (O_DIM + 16)
#define O_V1 (O_V0 + 8)
#ifdef STR
#define O_END (O_V1 + (X.dim[0] > 0 ? SLEN(0) : 0) + (X.dim[0] > 1 ? SLEN(1) : 0))
#else
#define O_END (O_V1 + Z1*X.dim[0])
#endif
int dlite_instance_get_hash(const DLiteInstance *inst, uint8_t *hash, int hashsize)
__CPROVER_requires(inst == &X.h && hashsize == DLITE_HASH_SIZE && __CPROVER_w_ok(hash, DLITE_HASH_SIZE))
__CPROVER_assigns(__CPROVER_object_upto(hash, DLITE_HASH_SIZE), g_len, g_byte, g_fin)
__CPROVER_ensures(RET == 0 && g_fin == 1)
__CPROVER_ensures(g_k < DLITE_HASH_SIZE ==> hash[g_k] == DIG[g_k])
__CPROVER_ensures(g_len == O_END)
__CPROVER_ensures((g_pos < O_URI && g_pos < DLITE_UUID_LENGTH) ==> g_byte == (uint8_t)P.uuid[g_pos])
__CPROVER_ensures((g_pos < O_URI && g_pos >= DLITE_UUID_LENGTH) ==> g_byte == P.hash[g_pos - DLITE_UUID_LENGTH])
__CPROVER_ensures((g_pos >= O_URI && g_pos < O_DIM) ==> g_byte == (uint8_t)URI[0])
__CPROVER_ensures((g_pos >= O_DIM && g_pos < O_V0) ==> g_byte == ((uint8_t *)X.dim)[g_pos - O_DIM])
__CPROVER_ensures((g_pos >= O_V0 && g_pos < O_V1) ==> g_byte == (uint8_t)X.v0[g_pos - O_V0])
#ifdef STR
__CPROVER_ensures((g_pos == O_V1 && X.dim[0] > 0 && SLEN(0)) ==> g_byte == (uint8_t)SV[0][0])
__CPROVER_ensures((g_pos == O_V1 + SLEN(0) && X.dim[0] > 1 && SLEN(1)) ==> g_byte == (uint8_t)SV[1][0])
#else
__CPROVER_ensures((g_pos >= O_V1 && g_pos < O_END) ==> g_byte == (uint8_t)VAL[g_pos - O_V1])
#endif
;
void harness(void)
{
  size_t k, p; _Bool hp, n0, n1; static uint8_t H[DLITE_HASH_SIZE]; g_k = k; g_pos = p; g_len = 0; g_fin = 0;
  X.h.meta = &M; X.h._parent = hp ? &P : NULL; X.h.uri = NULL; M.uri = URI; __CPROVER_assume(URI[1] == 0);
  M._gethash = NULL; M._getdim = NULL; M._saveprop = NULL;
  M._ndimensions = 2; M._nproperties = 2; M._properties = PR; M._propoffsets = PO; M._propdiminds = PDI;
  M._dimoffset = offsetof(__typeof__(X), dim); M._propdimsoffset = offsetof(__typeof__(X), pd);
  PO[0] = offsetof(__typeof__(X), v0); PO[1] = offsetof(__typeof__(X), v1); PDI[0] = 0; PDI[1] = 0;
  PR[0].type = dliteFloat; PR[0].size = 8; PR[0].ndims = 0; PR[1].type = T1; PR[1].size = Z1; PR[1].ndims = 1;
  __CPROVER_assume(X.dim[0] <= 2); X.pd[0] = X.dim[0];
  __CPROVER_assume(S0[1] == 0 && S1[1] == 0); SV[0] = n0 ? NULL : S0; SV[1] = n1 ? NULL : S1;
#ifdef STR
  X.v1 = SV;
#else
  X.v1 = VAL;
#endif
  if (dlite_instance_get_hash(&X.h, H, DLITE_HASH_SIZE) == 0) VF_REACH("hash");
}
#endif

#ifdef U_ELEM
/* one element contributes: T is the type; strings are up to 2 characters (bounded) */
static char N[3], D[3], U[3], S0[3], S1[3]; static char *SH[2]; static DLiteProperty Pr; static DLiteDimension Di; static DLiteRelation Re; static char *Str; static DLiteInstance In; static DLiteInstance *Ref;
static char RAW[9];
static size_t L(const char *s) { return !s || !s[0] ? 0 : !s[1] ? 1 : 2; }
/* byte g_pos of string s placed at offset o of the stream */
#define AT(s, o) ((g_pos >= (o) && g_pos - (o) < L(s)) ==> g_byte == (uint8_t)(s)[g_pos - (o)])
int dlite_type_update_sha3(sha3_context *c, const void *ptr, DLiteType dtype, size_t size)
__CPROVER_assigns(g_len, g_byte)
__CPROVER_ensures(RET == 0)
#if T == 1        /* string */
__CPROVER_ensures(g_len == L(Str)) __CPROVER_ensures(AT(Str, 0))
#elif T == 2      /* reference: the uuid of the instance */
__CPROVER_ensures(g_len == (Ref ? DLITE_UUID_LENGTH : 0)) __CPROVER_ensures(g_pos < g_len ==> g_byte == (uint8_t)In.uuid[g_pos])
#elif T == 3      /* dimension */
__CPROVER_ensures(g_len == L(N) + L(Di.description)) __CPROVER_ensures(AT(N, 0)) __CPROVER_ensures(Di.description == NULL || AT(D, L(N)))
#elif T == 4      /* property: name, type, size, shape, unit, description */
#define OT (L(N))
#define ALLOC (Pr.type == dliteStringPtr || Pr.type == dliteRef || Pr.type == dliteDimension || Pr.type == dliteProperty || Pr.type == dliteRelation)
#define OS (OT + sizeof(DLiteType))
#define OD (OS + (ALLOC ? 0 : 8))
#define O0 (OD + sizeof(int))
#define O1 (O0 + (Pr.ndims > 0 ? L(S0) : 0))
#define OU (O1 + (Pr.ndims > 1 ? L(S1) : 0))
#define OE (OU + L(Pr.unit))
__CPROVER_ensures(g_len == OE + L(Pr.description))
__CPROVER_ensures(AT(N, 0))
__CPROVER_ensures((g_pos >= OT && g_pos < OS) ==> g_byte == ((uint8_t *)&Pr.type)[g_pos - OT])
__CPROVER_ensures((g_pos >= OS && g_pos < OD) ==> g_byte == ((uint8_t *)&Pr.size)[g_pos - OS])
__CPROVER_ensures((g_pos >= OD && g_pos < O0) ==> g_byte == ((uint8_t *)&Pr.ndims)[g_pos - OD])
__CPROVER_ensures(Pr.ndims < 1 || AT(S0, O0)) __CPROVER_ensures(Pr.ndims < 2 || AT(S1, O1))
__CPROVER_ensures(Pr.unit == NULL || AT(U, OU)) __CPROVER_ensures(Pr.description == NULL || AT(D, OE))
#elif T == 5      /* relation */
__CPROVER_ensures(g_len == L(Re.s) + L(Re.p) + L(Re.o))
__CPROVER_ensures(!Re.s || AT(N, 0)) __CPROVER_ensures(!Re.p || AT(D, L(Re.s))) __CPROVER_ensures(!Re.o || AT(U, L(Re.s) + L(Re.p)))
#else             /* raw memory */
__CPROVER_ensures(g_len == size) __CPROVER_ensures(g_pos < size ==> g_byte == (uint8_t)RAW[g_pos])
#endif
;
void harness(void)
{
  sha3_context *c; size_t p; _Bool b0, b1, b2; g_pos = p; g_len = 0; g_fin = 0;
  __CPROVER_assume(N[2] == 0 && D[2] == 0 && U[2] == 0 && S0[2] == 0 && S1[2] == 0);
#if T == 1
  Str = b0 ? N : NULL; dlite_type_update_sha3(c, &Str, dliteStringPtr, 8);
#elif T == 2
  Ref = b0 ? &In : NULL; dlite_type_update_sha3(c, &Ref, dliteRef, 8);
#elif T == 3
  Di.name = N; Di.description = b0 ? D : NULL; dlite_type_update_sha3(c, &Di, dliteDimension, sizeof Di);
#elif T == 4
  int nd; SH[0] = S0; SH[1] = S1; Pr.name = N; Pr.shape = SH; Pr.unit = b0 ? U : NULL; Pr.description = b1 ? D : NULL; Pr.ndims = nd; Pr.ref = NULL;
  __CPROVER_assume(nd >= 0 && nd <= 2 && Pr.type >= dliteBlob && Pr.type <= dliteRelation);
  dlite_type_update_sha3(c, &Pr, dliteProperty, sizeof Pr);
#elif T == 5
  Re.s = b0 ? N : NULL; Re.p = b1 ? D : NULL; Re.o = b2 ? U : NULL; dlite_type_update_sha3(c, &Re, dliteRelation, sizeof Re);
#else
  DLiteType t; size_t n; __CPROVER_assume((t == dliteBlob || t == dliteBool || t == dliteInt || t == dliteUInt || t == dliteFloat || t == dliteFixString) && n <= 9);
  dlite_type_update_sha3(c, RAW, t, n);
#endif
  VF_REACH("elem");
}
#endif
