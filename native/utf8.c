#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils/strutils.h"
#include "utils/unicode.h"
/* F01: UTF-8 */
static int enc(long v, unsigned char *b)        /* independent encoder */
{
  static const long lim[] = {0x80, 0x800, 0x10000, 0x200000, 0x4000000, 0x80000000L}; int n = 1, i;
  while (v >= lim[n - 1]) n++;
  if (n == 1) { b[0] = v; return 1; }
  for (i = n - 1; i > 0; i--) { b[i] = 0x80 | (v & 0x3f); v >>= 6; }
  b[0] = (unsigned char)((0xff00 >> n) | v);
  return n;
}
static long gen(void) { static const long e[] = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff}; switch (vf_choice(4)) { case 0: return e[vf_choice(12)]; case 1: return vf_choice(0x800); case 2: return vf_choice(0x110000); default: return vf_choice(0x80000000UL); } }
static void body_code(void)
{
  long v = gen(), w = -1; unsigned char b[8], *c; int n = enc(v, b), m;
  c = vf_alloc(n + 1); m = utf8encode(v, (char *)c);
  VF_CHECK(m == n && !memcmp(b, c, n) && c[n] == 0 && utf8encode(v, NULL) == n, "encoding of %lx", v);
  m = utf8decode((char *)c, &w); VF_CHECK(m == n && w == v, "decoding of %lx gives %lx", v, w);
  m = vf_choice(n); char *t = vf_dup((char *)c, m);        /* cut off: refused (but for the empty text) */
  VF_CHECK(utf8decode(t, &w) == (m ? 0 : 1), "a code point without its last bytes is decoded");
  VF_CHECK(utf8encode(-1 - (long)vf_choice(1UL << 40), NULL) == 0 && utf8encode(0x80000000L + (long)vf_choice(1UL << 40), NULL) == 0, "a value out of range is encoded");
}
static void body_copy(void)
{
  char s[200]; int cut[60], k = vf_choice(30), i, n = 0, r, f; size_t room;
  for (i = 0; i < k; i++) { cut[i] = n; unsigned char b[8]; long v = vf_bool() ? 1 + vf_choice(127) : vf_choice(3) ? 0x80 + vf_choice(0x10ff00) : 0x80 + vf_choice(0x780); int m = enc(v, b); memcpy(s + n, b, m); n += m; }
  cut[k] = n; s[n] = 0;
  room = vf_bool() ? n + 1 : vf_choice(n + 4);
  char *d = vf_alloc(room), *src = vf_dup(s, n);
  switch (vf_choice(3)) { case 0: r = strsets(d, room, src); break; case 1: r = strsetn(d, room, src, -1); break;
    default: { i = vf_choice(k + 1); n = cut[i]; k = i; char *x = vf_alloc(n); memcpy(x, s, n); r = strsetn(d, room, x, n); } }
  VF_CHECK(r == n, "%d bytes announced, expected %d", r, n);
  if (!room) return;
  for (f = 0, i = 0; i <= k; i++) if (cut[i] < (int)room) f = cut[i];
  VF_CHECK(memchr(d, 0, room) && (int)strlen(d) == f && !memcmp(d, s, f), "copy of %d bytes to a buffer of %zu has %zu bytes, expected %d", n, room, strlen(d), f);
}
static void body_put(void)                       /* growing buffers */
{
  char *d = NULL, w[600]; size_t size = 0, n = 0; int i, k, m, r; memset(w, 0, sizeof(w));
  for (k = 1 + vf_choice(6); k; k--) {
    char s[60], *t; m = vf_choice(50); for (i = 0; i < m; i++) s[i] = 1 + vf_choice(255);
    size_t pos = vf_choice(4) ? n : vf_choice(n + 1); t = vf_dup(s, m);
    if (vf_bool()) { r = strput(&d, &size, pos, t); }
    else { i = vf_choice(m + 1); r = strnput(&d, &size, pos, t, i); m = i; }
    memcpy(w + pos, s, m); n = pos + m; w[n] = 0;
    VF_CHECK(r == m && d && size > n && strlen(d) == n && !memcmp(d, w, n), "text put at %zu", pos);
  }
  if (vf_bool()) {
    char e[400], s[60]; static const char *const esc[] = {"%", "\\x", ""}; const char *x = esc[vf_choice(3)]; int j = 0; static const StrCategory cats[] = {strcatUpper, strcatDigit, strcatUnreserved, strcatSubDelims, strcatPercent, strcatSpace}; StrCategory cat = cats[vf_choice(6)];
    m = vf_choice(40); for (i = 0; i < m; i++) s[i] = 1 + vf_choice(vf_bool() ? 255 : 126); s[m] = 0;
    for (i = 0; i < m; i++) if (strcategory(s[i]) <= cat) e[j++] = s[i]; else j += sprintf(e + j, "%s%02X", x, (unsigned char)s[i]);
    e[j] = 0; size_t pos = vf_choice(n + 1);
    r = strnput_escape(&d, &size, pos, vf_dup(s, m), vf_bool() ? -1 : m, cat, x);
    if (m) VF_CHECK(r == (int)pos + j && size > pos + j && !strcmp(d + pos, e), "escaped text");
  }
  free(d);
}
VfBody vf_bodies[] = { {"code", body_code, 0}, {"copy", body_copy, 0}, {"put", body_put, 0}, {NULL} };
