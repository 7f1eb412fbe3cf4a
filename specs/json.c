/* J01: text of values and back -- the quoting functions (strutils.c), dlite_type_print/_scan (dlite-type.c),
   dlite_property_print/_scan (dlite-entity.c) with the JSON parser (jsmnx.c) */
#include "config.h"
#include "err_stub.h"
#include <stdarg.h>
#include <ctype.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
size_t g_k, g_pos, *g_P; int *g_I;
#include "utils/compat.h"
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
#undef isspace
#undef isblank
#undef isxdigit
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define isblank(c) ((c) == ' ' || (c) == 9)
#define isxdigit(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
/* realloc() by cases on the size: keeps every object of a fixed size for the verifier */
static void *vf_realloc(void *p, size_t n)
{
  char *q = NULL; size_t k, i, o = p ? __CPROVER_OBJECT_SIZE(p) : 0;
  __CPROVER_assert(n >= 1 && n <= 10, "bound of the allocation model");
  for (k = 1; k <= 10; k++) if (n == k) { q = malloc(k); for (i = 0; i < k; i++) if (i < o) q[i] = ((char *)p)[i]; }
  return q;
}
#define realloc vf_realloc
#ifdef U_PUT
#include "utils/strutils.c"
#endif
#ifdef U_QUOTE
#include "utils/strutils.h"
#ifndef LEN
# define LEN 2
#endif
/* an arbitrary text of LEN characters */
#define TEXT(t) char t[LEN + 1]; for (int i_ = 0; i_ < LEN; i_++) __CPROVER_assume(t[i_] != 0); t[LEN] = 0
void h_quote(void)
{
  TEXT(t); char q[6*LEN + 3], back[LEN + 1]; int i, used = -1, n, m;
  n = strquote(NULL, 0, t);
  __CPROVER_assert(n >= LEN + 2 && n <= 6*LEN + 2, "every character gives one to six characters");
  m = strquote(q, sizeof(q), t);
  __CPROVER_assert(m == n && q[n] == 0, "the length does not depend on the room");
  __CPROVER_assert(q[0] == '"' && q[n - 1] == '"', "quoted");
  int esc = 0;
  for (i = 1; i < n - 1; i++) {
    __CPROVER_assert(q[i] != 0 && !(q[i] > 0 && q[i] < 0x20), "no control characters in a JSON string");
    if (esc) { esc = 0; continue; }
    if (q[i] == '\\') esc = 1; else __CPROVER_assert(q[i] != '"', "no unescaped quote inside");
  }
  __CPROVER_assert(!esc, "the final quote is not escaped");
  m = strunquote(NULL, 0, q, &used, 0);
  __CPROVER_assert(m == LEN && used == n, "unquoting gives as many characters, consuming the whole");
  m = strunquote(back, sizeof(back), q, &used, 0);
  __CPROVER_assert(m == LEN && used == n && back[LEN] == 0, "the same with room");
  for (i = 0; i < LEN; i++) __CPROVER_assert(back[i] == t[i], "unquoting the quoted text gives the text");
  VF_REACH("quote");
}
/* too little room: the first characters, terminated; nothing else is written */
void h_room(void)
{
  TEXT(t); int fl = 0; _Bool b; if (b) fl |= strquoteNoEscape; _Bool c; if (c) fl |= strquoteNoQuote;
  char full[6*LEN + 3]; int n = strnquote(full, sizeof(full), t, -1, fl);
  __CPROVER_assert(n >= 0 && n < (int)sizeof(full) && full[n] == 0, "fits");
  for (int room = 1; room <= 6*LEN + 3; room++) {
    char *d = malloc(room); int m = strnquote(d, room, t, -1, fl);
    __CPROVER_assert(m == n, "same length for any room");
    for (int i = 0; i < room - 1 && i < n; i++) __CPROVER_assert(d[i] == full[i], "first characters");
    __CPROVER_assert(d[n < room ? n : room - 1] == 0, "terminated");
  }
  /* the text may be the first characters of a longer one */
  char *p = malloc(LEN + 1); for (int i = 0; i < LEN; i++) p[i] = t[i]; char other; p[LEN] = other;
  char again[6*LEN + 3]; int m = strnquote(again, sizeof(again), p, LEN, fl);
  __CPROVER_assert(m == n, "length argument");
  for (int i = 0; i <= n; i++) __CPROVER_assert(again[i] == full[i], "length argument");
  VF_REACH("room");
}
/* any text is unquoted safely, the same way with and without room */
void h_unquote(void)
{
  TEXT(t); int fl, used = -7, used2 = -7;
  __CPROVER_assume(fl == 0 || fl == strquoteNoQuote || fl == strquoteNoEscape || fl == strquoteRaw || fl == (strquoteNoQuote | strquoteInitialBlanks));
  int n = strunquote(NULL, 0, t, &used, fl);
  for (int room = 1; room <= LEN + 1; room++) {
    char *d = malloc(room); int m = strunquote(d, room, t, &used2, fl);
    __CPROVER_assert(m == n && (n < 0 || used2 == used), "same result with and without room");
    __CPROVER_assert(n < 0 || d[n < room ? n : room - 1] == 0, "terminated");
  }
  __CPROVER_assert(n >= -2 && n <= LEN && (n < 0 || (used >= 0 && used <= LEN)), "no more than there is");
  if (n >= 0) VF_REACH("unquote");
}
/* escape sequences of JSON written by others */
void h_escapes(void)
{
  char d[8], t[9]; int k; const char *e = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t";
  __CPROVER_assume(k >= 0 && k < 8);
  t[0] = '"'; t[1] = '\\'; t[2] = e[k]; t[3] = '"'; t[4] = 0;
  __CPROVER_assert(strunquote(d, sizeof(d), t, NULL, 0) == 1 && d[0] == v[k] && d[1] == 0, "one-letter escapes");
  unsigned u; __CPROVER_assume(u > 0 && u < 0x10000 && (u < 0xd800 || u > 0xdfff)); const char *x = "0123456789abcdef";
  t[2] = 'u'; for (int i = 0; i < 4; i++) t[3 + i] = x[(u >> (12 - 4*i)) & 15]; t[7] = '"'; t[8] = 0;
  int n = strunquote(d, sizeof(d), t, NULL, 0);
  unsigned char *b = (unsigned char *)d;
  if (u < 0x80) __CPROVER_assert(n == 1 && b[0] == u, "ASCII");
  else if (u < 0x800) __CPROVER_assert(n == 2 && b[0] == (0xc0 | u >> 6) && b[1] == (0x80 | (u & 63)), "two bytes of UTF-8");
  else __CPROVER_assert(n == 3 && b[0] == (0xe0 | u >> 12) && b[1] == (0x80 | (u >> 6 & 63)) && b[2] == (0x80 | (u & 63)), "three bytes of UTF-8");
  VF_REACH("escapes");
}
#ifndef ROOM
# define ROOM 0
#endif
void h_put(void)
{
  TEXT(t); char q[6*LEN + 3]; int n = strquote(q, sizeof(q), t);
  size_t size = ROOM; size_t pos; __CPROVER_assume(pos <= size);
  char *buf = size ? malloc(size) : NULL; char c0; if (size) buf[0] = c0;
  int m = strnput_unquote(&buf, &size, pos, q, -1, NULL, 0);
  __CPROVER_assert(m == LEN && size >= pos + LEN + 1 && buf[pos + LEN] == 0, "reallocated as needed");
  for (int i = 0; i < LEN; i++) __CPROVER_assert(buf[pos + i] == t[i], "text at the position");
  if (pos > 0) __CPROVER_assert(buf[0] == c0, "what is before the position is kept");
  VF_REACH("put");
}
#endif
#ifdef U_TYPE
#include "vf_num.h"
#include "dlite-type.c"
#ifndef DT
# define DT dliteInt
# define SZ 4
#endif
/* every value printed as JSON (as dlite_json_sprint() and dlite_property_print() do) and scanned again is the same */
void h_value(void)
{
  struct { char b[8]; } v, w; char *text; int n, m; static char out[64]; DLiteTypeFlag f = dliteFlagQuoted;
#if defined(ISFLOAT)
  if (SZ == 8) { double x; __CPROVER_assume(x - x == 0); memcpy(v.b, &x, 8); } else { float x; __CPROVER_assume(x - x == 0); memcpy(v.b, &x, 4); }
#elif defined(ISBOOL)
  { int k; *(bool *)v.b = k != 0; }
#endif
#if defined(ISSTR)
  char t[SLEN + 1]; for (int i = 0; i < SLEN; i++) __CPROVER_assume(t[i] != 0); t[SLEN] = 0;
  char *vp = t, *wp = NULL; void *p = &vp, *q = &wp;
#else
  void *p = v.b, *q = w.b;
#endif
#ifdef ISFIX
  v.b[SZ - 1] = 0;
  { int e = 0; for (int i = 0; i < SZ; i++) { if (e) v.b[i] = 0; if (!v.b[i]) e = 1; } }   /* zero padded */
#endif
  n = dlite_type_print(out, sizeof(out), p, DT, SZ, 0, -3, f);
  __CPROVER_assert(n > 0 && n < (int)sizeof(out) && out[n] == 0, "printed");
  /* scanned as the JSON token (strings: with their quotes; others as they stand) */
#if defined(ISSTR) || defined(ISFIX) || defined(ISBLOB)
  m = dlite_type_scan(out, n, q, DT, SZ, dliteFlagQuoted);
#else
  m = dlite_type_scan(out, n, q, DT, SZ, dliteFlagDefault);
#endif
  __CPROVER_assert(m == n, "everything that was printed is consumed");
#if defined(ISSTR)
  __CPROVER_assert(wp != NULL, "string");
  for (int i = 0; i <= SLEN; i++) __CPROVER_assert(wp[i] == t[i], "same text");
#elif defined(ISFLOAT)
  if (SZ == 8) { double x, y; memcpy(&x, v.b, 8); memcpy(&y, w.b, 8); __CPROVER_assert(x == y, "same number"); }
  else { float x, y; memcpy(&x, v.b, 4); memcpy(&y, w.b, 4); __CPROVER_assert(x == y, "same number"); }
#elif defined(ISFIX)
  for (int i = 0; i < SZ; i++) { __CPROVER_assert(w.b[i] == v.b[i], "same text"); if (!v.b[i]) break; }
#else
  for (int i = 0; i < SZ; i++) __CPROVER_assert(w.b[i] == v.b[i], "same value");
#endif
  VF_REACH("value");
}
#endif
#ifdef U_ARR
#include "vf_num.h"
#include "dlite-type.c"
#undef PDIFF
#include "dlite-entity.c"
#ifndef DT
# define DT dliteInt
# define SZ 4
#endif
#ifndef NE
# define NE 2
# define SHAPE {NE}
# define ND 1
#endif
/* an array of any values, written as JSON text and read from it again */
void h_array(void)
{
  static char out[128]; size_t shape[] = SHAPE; int i, n, m;
  static struct { char b[NE*SZ + SZ]; } v, w;
#ifdef ISSTR
  char t[NE][2]; char *vp[NE + 1], *wp[NE + 1];
  for (i = 0; i < NE; i++) { char c; t[i][0] = c; t[i][1] = 0; vp[i] = t[i]; wp[i] = NULL; }
  void *p = vp, *q = wp;
#else
  for (i = 0; i < NE*SZ; i++) { char c; v.b[i] = c; }
  void *p = v.b, *q = w.b;
#endif
  DLiteProperty pr; memset(&pr, 0, sizeof pr); pr.name = "p"; pr.type = DT; pr.size = SZ; pr.ndims = ND;
  n = dlite_property_print(NULL, 0, p, &pr, shape, 0, -3, dliteFlagQuoted);
  vf_ntok = 0;
  m = dlite_property_print(out, sizeof(out), p, &pr, shape, 0, -3, dliteFlagQuoted);
  __CPROVER_assert(m == n && n > 0 && n < (int)sizeof(out) && out[n] == 0, "length does not depend on the room");
  m = dlite_property_scan(out, q, &pr, shape, 0);
  __CPROVER_assert(m == n, "everything that was printed is consumed");
#ifdef ISSTR
  for (i = 0; i < NE; i++) __CPROVER_assert(wp[i] && wp[i][0] == t[i][0] && (!t[i][0] || !wp[i][1]), "same text");
#else
  for (i = 0; i < NE*SZ; i++) __CPROVER_assert(w.b[i] == v.b[i], "same values");
#endif
  VF_REACH("array");
}
#endif
