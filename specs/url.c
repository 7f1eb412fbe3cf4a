/* W01, F01: contracts for urlsplit.c, the character categories and string writers of strutils.c, unicode.c */
#include <assert.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include "integers.h"
#include "utils/compat.h"
#include "utils/clp2.h"
#include "utils/strutils.h"
#ifdef U_CAT
# include "utils/strutils.c"
#else
# include "vf_printf.h"
#endif
static int refcat(int c)
{
  return c >= 'A' && c <= 'Z' ? strcatUpper : c >= 'a' && c <= 'z' ? strcatLower : c >= '0' && c <= '9' ? strcatDigit : c == 0 ? strcatNul
    : (c == '-' || c == '.' || c == '_' || c == '~') ? strcatUnreserved
    : (c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '=') ? strcatSubDelims
    : (c == ':' || c == '/' || c == '?' || c == '#' || c == '[' || c == ']' || c == '@') ? strcatGenDelims
    : c == '%' ? strcatPercent
    : (c == '"' || c == '\\' || c == '<' || c == '>' || c == '^' || c == '{' || c == '}' || c == '|') ? strcatCExtra
    : (c == ' ' || c == '\f' || c == '\n' || c == '\r' || c == '\t' || c == '\v') ? strcatSpace : strcatOther;
}
#ifdef U_CAT
void h_cat(void) { int c; __CPROVER_assert(strcategory(c) == refcat(c), "category of the character (RFC 3986)"); VF_REACH("cat"); }
#define N 6
void h_spn(void)
{
  char s[N + 1]; int i, a = 0, b = 0, c = 0, d = 0, cat; __CPROVER_assume(cat >= strcatUpper && cat <= strcatOther);
  s[N] = 0;
  while (s[a] && refcat(s[a]) == cat) a++;
  while (s[b] && refcat(s[b]) != cat) b++;
  while (s[c] && refcat(s[c]) <= cat) c++;
  while (s[d] && refcat(s[d]) > cat) d++;
  __CPROVER_assert(strcatspn(s, cat) == a, "initial segment in the category");
  __CPROVER_assert(strcatcspn(s, cat) == b, "initial segment outside the category");
  __CPROVER_assert(strcatjspn(s, cat) == c, "initial segment up to the category");
  __CPROVER_assert(strcatcjspn(s, cat) == d, "initial segment beyond the category");
  VF_REACH("spn");
}
#define LEADN(v) (((v) & 0xe0) == 0xc0 ? 2 : ((v) & 0xf0) == 0xe0 ? 3 : ((v) & 0xf8) == 0xf0 ? 4 : 1)
void h_setc(void)                   /* every byte, given as char or as unsigned char, every buffer size */
{
  char d[8], o[8]; int i, c; long size; unsigned char v;
  __CPROVER_assume(size >= -100 && size <= 8 && c >= -128 && c <= 255);
  for (i = 0; i < 8; i++) o[i] = d[i];
  __CPROVER_assert(strsetc(d, size, c) == 1, "one byte");
  v = (unsigned char)c;
  if (size >= 2) __CPROVER_assert((unsigned char)d[0] == (size > LEADN(v) || LEADN(v) == 1 ? v : 0) && d[1] == 0, "the byte, or nothing if its code point does not fit");
  else if (size == 1) __CPROVER_assert(d[0] == 0, "terminated");
  for (i = 0; i < 8; i++) if (i >= size || i >= 2) __CPROVER_assert(d[i] == o[i], "nothing else is written");
  VF_REACH("setc");
}
void h_sets(void)                   /* up to 5 bytes of well-formed UTF-8, every buffer size */
{
  char s[6], d[8], o[8]; int i, n = 0, len, full = 0, part, k; long size;
  __CPROVER_assume(size >= -2 && size <= 8 && len >= 0 && len <= 5);
  for (i = 0; i < 8; i++) o[i] = d[i];
  for (i = 0; i < 6; i++) __CPROVER_assume((s[i] == 0) == (i >= len));
  /* well-formed: lead bytes followed by their continuation bytes */
  for (i = 0, k = 0; i < 5; i++) if (i < len) {
    unsigned char v = (unsigned char)s[i];
    if (k) { __CPROVER_assume((v & 0xc0) == 0x80); k--; } else { __CPROVER_assume(v < 0x80 || (v >= 0xc0 && v < 0xf8)); k = v < 0x80 ? 0 : LEADN(v) - 1; }
    if (!k && i + 1 < size) full = i + 1;          /* whole code points that fit */
  }
  __CPROVER_assume(k == 0);
  _Bool usen;
  n = usen ? strsetn(d, size, s, part ? -1 : len) : strsets(d, size, s);
  __CPROVER_assert(n == len, "length of the source");
  if (size > 0) {
    for (i = 0; i < full; i++) __CPROVER_assert(d[i] == s[i], "the whole code points that fit");
    __CPROVER_assert(d[full] == 0, "and no part of another one");
  }
  for (i = 0; i < 8; i++) if (i >= size) __CPROVER_assert(d[i] == o[i], "nothing behind the buffer is written");
  VF_REACH("sets");
}
#endif
#ifdef U_PCT
/* callees by their contracts (proved above: h_cat, h_setc) */
StrCategory strcategory(int c) { return refcat(c); }
int strsetc(char *d, long size, int c) { if (size >= 2) { d[0] = (char)c; d[1] = 0; } else if (size == 1) d[0] = 0; return 1; }
#include "utils/urlsplit.c"
static char hexd(int i) { return (char)(i < 10 ? '0' + i : 'A' + i - 10); }
void h_pct(void)
{
  char s[LEN + 1], b[3*LEN + 3], w[3*LEN + 3], o; int i, n = 0, len, r, fit; long size;
  __CPROVER_assume(len >= 0 && len <= LEN && size >= 0 && size <= 3*LEN + 2);
  for (i = 0; i < LEN; i++) __CPROVER_assume(i >= len || s[i] != 0);
  s[len] = 0;
  for (i = 0; i < LEN; i++) if (i < len) {
    if (refcat(s[i]) <= strcatSubDelims || s[i] == '/') w[n++] = s[i];
    else { w[n] = '%'; w[n + 1] = hexd((unsigned char)s[i] >> 4); w[n + 2] = hexd((unsigned char)s[i] & 15); n += 3; }
  }
  o = b[size];
  r = pct_xencode(b, size, s, len, strcatSubDelims, "/");
  __CPROVER_assert(r == n, "announced length");
  __CPROVER_assert(b[size] == o, "nothing behind the buffer is written");
  if (size > n) { for (i = 0; i < 3*LEN; i++) if (i < n) __CPROVER_assert(b[i] == w[i], "each byte itself or as %XX"); __CPROVER_assert(b[n] == 0, "terminated"); }
  VF_REACH("pct");
}
#endif
#ifdef U_UTF8
#include "utils/unicode.h"
#include "utils/unicode.c"
void h_utf8(void)                    /* every value a long can have */
{
  long v, w = -1; char b[7], c[7]; int n, i, k; unsigned char h[7];
  for (i = 0; i < 7; i++) c[i] = b[i];
  n = utf8encode(v, b);
  __CPROVER_assert((n == 0) == (v < 0 || v > 0x7fffffff), "the values that can be encoded");
  __CPROVER_assert(utf8encode(v, NULL) == n, "length without writing");
  if (n) {
    __CPROVER_assert(n == (v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6), "shortest form");
    for (i = 1; i < n; i++) __CPROVER_assert(((unsigned char)b[i] & 0xc0) == 0x80, "continuation bytes");
    if (n == 1) __CPROVER_assert(b[0] == v, "ASCII is itself");
    else __CPROVER_assert((unsigned char)b[0] >> (7 - n) == (1 << (n + 1)) - 2, "the first byte tells the length");
    __CPROVER_assert(b[n] == 0, "terminated");
    __CPROVER_assert(utf8decode(b, &w) == n && w == v, "decoding gives back the value");
    __CPROVER_assert(utf8decode(b, NULL) == n, "decoding without a result");
  }
  for (i = 0; i < 7; i++) if (i > n || !n) __CPROVER_assert(b[i] == c[i], "nothing else is written");
  VF_REACH("utf8");
}
void h_utf8dec(void)                 /* arbitrary NUL-terminated bytes: reads no further than the NUL */
{
  size_t k; __CPROVER_assume(k < 7); char *s = malloc(k + 1); __CPROVER_assume(s != NULL);
  long v = -7, w; char b[7]; int n, i; s[k] = 0;
  n = utf8decode(s, &v);
  __CPROVER_assert(n >= 0 && n <= 6 && (size_t)n <= k + 1, "length within the text");
  if (n) { __CPROVER_assert(v >= 0 && v <= 0x7fffffff, "value"); __CPROVER_assert(n == 1 || ((unsigned char)s[0] & 0xc0) == 0xc0, "no code point starts with a continuation byte"); 
    for (i = 1; i < n; i++) __CPROVER_assert(((unsigned char)s[i] & 0xc0) == 0x80, "complete"); }
  else __CPROVER_assert(v == -7 || v == 0, "refused text: no value");
  VF_REACH("utf8dec");
}
#endif
#ifdef U_SPLIT
/* libc functions without a body in cbmc */
size_t strspn(const char *s, const char *a) { size_t n = 0, i; for (; s[n]; n++) { for (i = 0; a[i] && a[i] != s[n]; i++); if (!a[i]) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0, i; for (; s[n]; n++) { for (i = 0; a[i] && a[i] != s[n]; i++); if (a[i]) break; } return n; }
void *memchr(const void *p, int c, size_t n) { size_t i; for (i = 0; i < n; i++) if (((const unsigned char *)p)[i] == (unsigned char)c) return (void *)((const char *)p + i); return NULL; }
StrCategory strcategory(int c) { return refcat(c); }
int strsetc(char *d, long size, int c) { return 1; }
int strsets(char *d, long size, const char *s) { return 0; }
int strsetn(char *d, long size, const char *s, int n) { return 0; }
int strcatspn(const char *s, StrCategory cat) { int n = 0; while (s[n] && refcat(s[n]) == cat) n++; return n; }
int strcatjspn(const char *s, StrCategory cat) { int n = 0; while (s[n] && refcat(s[n]) <= cat) n++; return n; }
#include "utils/urlsplit.c"
static void within(const char *s, int n, const char *p, int len) { if (p) __CPROVER_assert(p >= s && len >= 0 && p + len <= s + n, "component lies in the URL"); }
void h_split(void)
{
  char s[LEN + 1]; UrlComponents c; int i, n, len;
  for (i = 0; i < LEN; i++) __CPROVER_assume(s[i] != 0); s[LEN] = 0;
  n = urlsplitn(s, LEN, &c);
  __CPROVER_assert(n >= 0 && n <= LEN, "length within the text");
  if (n == LEN) {
    within(s, n, c.scheme, c.scheme_len); within(s, n, c.authority, c.authority_len); within(s, n, c.userinfo, c.userinfo_len); within(s, n, c.host, c.host_len);
    within(s, n, c.port, c.port_len); within(s, n, c.path, c.path_len); within(s, n, c.query, c.query_len); within(s, n, c.fragment, c.fragment_len);
    __CPROVER_assert(c.scheme == s && c.scheme_len >= 1 && s[c.scheme_len] == ':' && c.path != NULL, "scheme first, path always");
    /* the parts and their delimiters make up the whole text */
    int t = c.scheme_len + 1 + (c.authority ? 2 + c.authority_len : 0) + c.path_len + (c.query ? 1 + c.query_len : 0) + (c.fragment ? 1 + c.fragment_len : 0);
    __CPROVER_assert(t == n, "the parts and their delimiters make up the whole URL");
    if (c.authority) {
      int a = (c.userinfo ? c.userinfo_len + 1 : 0) + c.host_len + (c.port ? 1 + c.port_len : 0);
      __CPROVER_assert(c.authority == s + c.scheme_len + 3 && a == c.authority_len, "the parts of the authority");
    }
    for (i = 0; i < LEN; i++) __CPROVER_assert(refcat(s[i]) <= strcatPercent, "no character that is not allowed in URLs");
  }
  VF_REACH("split");
}
#endif
