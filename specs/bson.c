/* B01: contracts for utils/bson.c. A document is appended to one element at a time, so the contract of bson_append for an
   arbitrary earlier content (OLD bytes) together with the one of bson_parse at an arbitrary element gives documents of
   any number of elements. */
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include "integers.h"
#include "floats.h"
#include "utils/bson.h"
#include "utils/err.h"
#include "utils/bson.c"
int nondet_int(void); unsigned char nondet_uchar(void);
static int g_errs;
int _err_format(ErrLevel errlevel, int eval, int errnum, const char *file, const char *func, const char *msg, ...) { g_errs++; return eval; }
#ifndef OLD
# define OLD 7
#endif
#ifndef SIZE
# define SIZE 5
#endif
#ifndef NL
# define NL 2
#endif
#ifndef MAXSIZE
# define MAXSIZE 6
#endif
static void put32(unsigned char *p, int v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static int get32(const unsigned char *p) { return (int)((unsigned)p[0] | (unsigned)p[1] << 8 | (unsigned)p[2] << 16 | (unsigned)p[3] << 24); }
static void name(char *s) { int i; for (i = 0; i < NL; i++) __CPROVER_assume(s[i] != 0); s[NL] = 0; }
static int variable(int t) { return t == bsonString || t == bsonBinary || t == bsonDocument || t == bsonArray; }
static int width(int t) { return t == bsonDouble || t == bsonInt64 || t == bsonUInt64 ? 8 : t == bsonInt32 ? 4 : t == bsonBool ? 1 : 0; }
/* head of the data: length (and subtype), as the specification of BSON has it */
static int head(int t) { return t == bsonString ? 4 : t == bsonBinary ? 5 : 0; }
static int tail(int t) { return t == bsonString; }

#ifdef U_APPEND
void h_append(void)
{
  char en[NL + 1]; int size, ask = nondet_int(), want, r, i, buf, type = TYPE; unsigned char *doc, *old, *data; char *e2; void *d2; int s2; unsigned char *end;
  name(en);
  if (variable(type)) { size = ask = SIZE; } else { __CPROVER_assume(ask == -1 || ask == width(type)); size = width(type); }
  data = malloc(size ? size : 1); __CPROVER_assume(data);
  if (type == bsonBool) __CPROVER_assume(*data <= 1);
  if (type == bsonDocument || type == bsonArray) { put32(data, size); }
  if (type == bsonString && nondet_int()) { data = malloc(size + 1); __CPROVER_assume(data); for (i = 0; i < size; i++) __CPROVER_assume(data[i] != 0); data[size] = 0; ask = -1; }
  want = 1 + NL + 1 + head(type) + size + tail(type);
#ifdef U_SHORT
  buf = nondet_int(); __CPROVER_assume(buf < want);
  doc = malloc(OLD);
#else
  buf = nondet_int(); __CPROVER_assume(buf >= want);
  doc = malloc(OLD + want);
#endif
  old = malloc(OLD); __CPROVER_assume(doc && old);
  put32(doc, OLD); doc[OLD - 1] = 0;
  for (i = 0; i < OLD; i++) old[i] = doc[i];
  __CPROVER_assert(bson_elementsize(type, en, ask) == (ask < 0 && variable(type) ? bsonValueError : want), "size of an element");
  g_errs = 0;
  r = bson_append(doc, buf, type, en, ask, data);
  __CPROVER_assert(r == want, "the size of the element is returned whatever the buffer");
  __CPROVER_assert(g_errs == 0, "no error");
  for (i = 4; i < OLD - 1; i++) __CPROVER_assert(doc[i] == old[i], "earlier elements are unchanged");
#ifdef U_SHORT
  __CPROVER_assert(get32(doc) == OLD && doc[OLD - 1] == 0, "a short buffer is left alone");
#else
  __CPROVER_assert(get32(doc) == OLD + want && doc[OLD + want - 1] == 0, "a terminated document of the new size");
  __CPROVER_assert(bson_docsize(doc) == OLD + want, "docsize");
  end = doc + OLD - 1;
  if (OLD == 5 && nondet_int()) end = NULL;
  r = bson_parse(doc, &e2, &d2, &s2, &end);
  __CPROVER_assert(r == type, "type read back");
  for (i = 0; i <= NL; i++) __CPROVER_assert(e2[i] == en[i], "name read back");
  __CPROVER_assert(s2 == size, "size read back");
  for (i = 0; i < size; i++) __CPROVER_assert(((unsigned char *)d2)[i] == data[i], "data read back");
  if (tail(type)) __CPROVER_assert(((unsigned char *)d2)[size] == 0, "strings are terminated");
  __CPROVER_assert(end == doc + OLD + want - 1, "next element");
  __CPROVER_assert(bson_parse(doc, &e2, &d2, &s2, &end) == 0, "no further element");
#endif
  VF_REACH("append");
}
#endif

#ifdef U_SUB    /* sub-documents and binary elements written piece by piece */
void h_sub(void)
{
  char en[NL + 1]; int r, i, sub, buf = nondet_int(), want, type = TYPE, h = type == bsonBinary ? 5 : 0; unsigned char *doc, *old, *s = NULL, *end; char *e2; void *d2; int s2;
  name(en);
  sub = SUB;
  want = NL + 2 + h + sub;
  doc = malloc(OLD + want); old = malloc(OLD + want); __CPROVER_assume(doc && old);
  put32(doc, OLD); doc[OLD - 1] = 0;
  for (i = 0; i < OLD; i++) old[i] = doc[i];
  g_errs = 0;
  r = h ? bson_begin_binary(NULL, nondet_int() & 3, en, &s) : bson_begin_subdoc(NULL, nondet_int() & 3, en, &s);
  __CPROVER_assert(r == NL + 6 && s == NULL, "a short buffer is left alone");
  __CPROVER_assume(buf >= NL + 6);
  r = h ? bson_begin_binary(doc, buf, en, &s) : bson_begin_subdoc(doc, buf, en, &s);
  __CPROVER_assert(r == NL + 6, "size of the start");
  __CPROVER_assert(s == doc + OLD + NL + 1, "place of the sub-document");
  for (i = 0; i < OLD; i++) __CPROVER_assert(doc[i] == old[i], "the document is not changed before the end");
  if (h) {
    __CPROVER_assert(get32(s) == 0, "empty");
    unsigned char d[SUB + 1]; int k = nondet_int(); __CPROVER_assume(k >= 0 && k <= sub);
    __CPROVER_assert(bson_append_binary(s, k - 1, k, d) == k && get32(s) == 0, "a short buffer is left alone");
    __CPROVER_assert(bson_append_binary(s, k, k, d) == k && get32(s) == k, "first piece");
    __CPROVER_assert(bson_append_binary(s, sub, sub - k, d + k) == sub - k && get32(s) == sub, "second piece");
    for (i = 0; i < sub; i++) old[OLD + i] = d[i];
  } else {
    __CPROVER_assert(bson_docsize(s) == 5 && s[4] == 0, "an empty document");
    for (i = 4; i < sub - 1; i++) s[i] = nondet_uchar();
    put32(s, sub); s[sub - 1] = 0;
    for (i = 0; i < sub; i++) old[OLD + i] = s[i];
  }
  r = h ? bson_end_binary(doc, 0) : bson_end_subdoc(doc, 0, type);
  __CPROVER_assert(r == 1 && get32(doc) == OLD && doc[OLD - 1] == 0, "a short buffer is left alone");
  r = h ? bson_end_binary(doc, 1) : bson_end_subdoc(doc, 1, type);
  __CPROVER_assert(r == 1, "size of the end");
  __CPROVER_assert(get32(doc) == OLD + want && doc[OLD + want - 1] == 0, "a terminated document of the new size");
  for (i = 4; i < OLD - 1; i++) __CPROVER_assert(doc[i] == old[i], "earlier elements are unchanged");
  __CPROVER_assert(g_errs == 0, "no error");
  end = doc + OLD - 1;
  r = bson_parse(doc, &e2, &d2, &s2, &end);
  __CPROVER_assert(r == type, "type read back");
  for (i = 0; i <= NL; i++) __CPROVER_assert(e2[i] == en[i], "name read back");
  __CPROVER_assert(s2 == sub, "size read back");
  for (i = 0; i < sub; i++) __CPROVER_assert(((unsigned char *)d2)[i] == old[OLD + i], "data read back");
  __CPROVER_assert(end == doc + OLD + want - 1 && *end == 0, "next element");
  if (!h) __CPROVER_assert(bson_end_subdoc(doc, buf, bsonString) < 0, "other types are refused");
  VF_REACH("sub");
}
#endif

#ifdef U_COUNT  /* documents of one element of any size up to 6 behind NPRE elements (null with an empty name) */
void h_count(void)
{
  unsigned char B[NPRE*2 + 64]; int type = TYPE, size = nondet_int(), i, p = 4, q, s2; char *e2; void *d2; unsigned char *end = NULL;
  __CPROVER_assume(variable(type) ? size >= 0 && size <= MAXSIZE && (type == bsonString || type == bsonBinary || size >= 5) : size == width(type));
  for (i = 0; i < NPRE; i++) { B[p++] = bsonNull; B[p++] = 0; }
  q = p; B[p++] = type;
  for (i = 0; i < NL; i++) __CPROVER_assume(B[p + i] != 0); B[p + NL] = 0; p += NL + 1;
  if (head(type)) put32(B + p, size + tail(type)); if (type == bsonBinary) B[p + 4] = 0;
  if (type == bsonDocument || type == bsonArray) put32(B + p, size);
  p += head(type) + size; if (tail(type)) B[p++] = 0;
  B[p++] = 0; put32(B, p);
  g_errs = 0;
  __CPROVER_assert(bson_nelements(B) == NPRE + 1, "number of elements");
  for (i = 0; i < NPRE; i++) __CPROVER_assert(bson_parse(B, &e2, &d2, &s2, &end) == bsonNull && *e2 == 0 && s2 == 0, "elements in order");
  __CPROVER_assert(bson_parse(B, &e2, &d2, &s2, &end) == type, "type");
  __CPROVER_assert((unsigned char *)e2 == B + q + 1, "name");
  __CPROVER_assert((unsigned char *)d2 == B + q + 1 + NL + 1 + head(type) && s2 == size, "data");
  __CPROVER_assert(bson_parse(B, &e2, &d2, &s2, &end) == 0 && g_errs == 0, "end");
  VF_REACH("count");
}
#endif

#ifdef U_SCAN   /* over the contract of bson_parse: a document is a sequence of elements */
static int nfail; static char N_[3][3]; static int ty[3], sz[3], n, cur; static unsigned char D_[3][8]; static unsigned char doc0[8];
static const int T[] = {bsonDouble, bsonString, bsonDocument, bsonArray, bsonBinary, bsonBool, bsonNull, bsonInt32, bsonUInt64, bsonInt64};
int m_parse(const unsigned char *doc, char **ename, void **data, int *datasize, unsigned char **endptr)
{
  int i;
  __CPROVER_assert(doc == doc0 && endptr != NULL, "a document");
  if (!*endptr) i = 0; else { i = *endptr - doc0; __CPROVER_assert(i > 0 && i <= n, "the position of the last call"); }
  if (nfail == i) return bsonParseError;
  if (i == n) return 0;
  *ename = N_[i]; *data = D_[i]; *datasize = sz[i]; *endptr = doc0 + i + 1;
  return ty[i];
}
void h_scan(void)
{
  int i, k, w = -1, t, s; char en[5]; int len = nondet_int(); void *d; int stop;
  n = nondet_int(); __CPROVER_assume(n >= 0 && n <= 3); nfail = nondet_int();
  for (i = 0; i < 3; i++) { int x = nondet_int(); __CPROVER_assume(x >= 0 && x < 10); ty[i] = T[x]; sz[i] = nondet_int(); for (k = 0; k < 2; k++) N_[i][k] = nondet_uchar(); for (k = 0; k < 8; k++) D_[i][k] = nondet_uchar(); }
  __CPROVER_assume(len >= 0 && len <= 2); for (i = 0; i < len; i++) __CPROVER_assume(en[i] != 0); en[len] = 0;
  stop = nfail >= 0 && nfail < n ? nfail : n;
  for (i = stop - 1; i >= 0; i--) if (strcmp(N_[i], en) == 0) w = i;
  t = nfail >= 0 && nfail <= n ? bsonParseError : 0;
#define TYPEOF(w) ((w) < 0 ? t : ty[w])
  d = NULL; s = -7;
#if S_NUM < 0
  int r;
  if (nondet_int()) r = bson_scan(doc0, en, &d, &s); else { int l = len; if (nondet_int() && len < 2) { en[len] = 'x'; en[len + 1] = 0; } r = bson_scann(doc0, en, l, nondet_int() ? NULL : &d, &s); }
  __CPROVER_assert(r == TYPEOF(w), "type of the first element of the name, 0 if there is none, or the error");
  if (w >= 0) __CPROVER_assert((d == D_[w] || d == NULL) && s == sz[w], "its data and size");
  else __CPROVER_assert(d == NULL && s == -7, "nothing");
  r = bson_scan(doc0, N_[0], &d, NULL);
  if (n > 0 && nfail) __CPROVER_assert(r == ty[0] && d == D_[0], "the first one wins");
#else
  int code = nondet_int(), c0 = code, q = nondet_int(); BsonError *pc = q ? &code : NULL; g_errs = 0;
#define NUM(fn, bt, ct) { ct v = fn(doc0, en, pc), x = 0; if (w >= 0 && ty[w] == bt) memcpy(&x, D_[w], sizeof x); __CPROVER_assert(!memcmp(&v, &x, sizeof x), "value of an element of the type, zero otherwise"); CODE(bt) }
#define CODE(bt) __CPROVER_assert(code == (!q ? c0 : w < 0 && t ? t : w < 0 ? bsonKeyError : ty[w] == bt ? 0 : bsonTypeError), "error code"); __CPROVER_assert(g_errs == (w < 0 ? q && c0 && !t : ty[w] != bt), "reported");
  switch (S_NUM) {
  case 0: NUM(bson_scan_int32, bsonInt32, int32_t) break;
  case 1: NUM(bson_scan_int64, bsonInt64, int64_t) break;
  case 2: NUM(bson_scan_uint64, bsonUInt64, uint64_t) break;
  case 3: NUM(bson_scan_double, bsonDouble, double) break;
  case 4: if (w >= 0 && ty[w] == bsonBool) __CPROVER_assume(*D_[w] <= 1); NUM(bson_scan_bool, bsonBool, unsigned char) break;
  case 5: { const char *v = bson_scan_string(doc0, en, pc); __CPROVER_assert(v == (w >= 0 && ty[w] == bsonString ? (char *)D_[w] : NULL), "text of a string, NULL otherwise"); CODE(bsonString) break; }
  }
#endif
  VF_REACH("scan");
}
#endif
