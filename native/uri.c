#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils/uri_encode.h"
#include "utils/strutils.h"
/* P01: percent and hex encoding */
static int unres(unsigned c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || (c && strchr("-._~", c)); }
static int hv(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1; }
static void roundtrip(const unsigned char *s, size_t n)
{
  size_t i, j = 0, k; char *e, *d;
  for (i = 0; i < n; i++) j += unres(s[i]) ? 1 : 3;
  k = uri_encode((const char *)s, n, NULL);
  VF_CHECK(k == j, "the encoding of %zu bytes is announced as %zu long, expected %zu", n, k, j);
  e = vf_alloc(j + 1); k = uri_encode((const char *)s, n, e);
  VF_CHECK(k == j && e[j] == 0, "length of the encoding");
  for (i = j = 0; i < n; i++)
    if (unres(s[i])) VF_CHECK((unsigned char)e[j++] == s[i], "byte %zu (%d) is changed", i, s[i]);
    else { VF_CHECK(e[j] == '%' && hv((unsigned char)e[j+1]) == s[i]/16 && hv((unsigned char)e[j+2]) == s[i]%16, "byte %zu (0x%02x) is encoded as %.3s", i, s[i], e + j); j += 3; }
  VF_CHECK(uri_decode(e, j, NULL) == n, "announced length of the decoding");
  d = vf_alloc(n + 1); k = uri_decode(e, j, d);
  VF_CHECK(k == n && d[n] == 0 && !memcmp(d, s, n), "decoding \"%s\" does not give back the original", e);
  k = uri_decode(e, j, e);                        /* in place */
  VF_CHECK(k == n && e[n] == 0 && !memcmp(e, s, n), "decoding in place");
}
static void body_every(void) { unsigned char b[2]; b[0] = vf_choice(256); b[1] = vf_choice(256); unsigned char *c = vf_alloc(2); memcpy(c, b, 2); roundtrip(c, vf_choice(2) ? 2 : 1); }
static void body_bytes(void)
{
  size_t n = vf_choice(60), i; unsigned char *b = vf_alloc(n);
  for (i = 0; i < n; i++) b[i] = vf_choice(3) ? vf_choice(256) : "%0aA/ \n"[vf_choice(8)];
  roundtrip(b, n);
}
static void body_any(void)                        /* decoding of arbitrary text */
{
  size_t n = vf_enumerating() ? vf_choice(7) : vf_choice(30), i, j, k; unsigned char *s = vf_alloc(n), *d = vf_alloc(n + 1), *w = vf_alloc(n + 1);
  for (i = 0; i < n; i++) s[i] = vf_enumerating() ? "%0fG"[vf_choice(4)] : "%%0fFGg9a@`/: \xff"[vf_choice(16)];
  for (i = j = 0; i < n; )
    if (s[i] == '%' && n - i >= 3 && hv(s[i+1]) >= 0 && hv(s[i+2]) >= 0) { w[j++] = hv(s[i+1])*16 + hv(s[i+2]); i += 3; }
    else w[j++] = s[i++];
  k = uri_decode((char *)s, n, (char *)d);
  VF_CHECK(k == j && d[j] == 0 && !memcmp(d, w, j), "decoding of \"%.*s\"", (int)n, s);
  VF_CHECK(uri_decode((char *)s, n, NULL) == j, "announced length for \"%.*s\"", (int)n, s);
}
static void body_hex(void)
{
  size_t n = vf_choice(20), i, room, m; unsigned char *b = vf_alloc(n), *c; char *h; int r;
  for (i = 0; i < n; i++) b[i] = vf_u8();
  room = vf_bool() ? 2*n + 1 : vf_choice(2*n + 3); h = vf_alloc(room);
  r = strhex_encode(h, room, b, n);
  VF_CHECK(r == (int)(2*n), "hex encoding of %zu bytes returns %d", n, r);
  m = room ? (room - 1)/2 : 0; if (m > n) m = n;      /* whole bytes that fit */
  if (room) {
    VF_CHECK(memchr(h, 0, room) && strlen(h) == 2*m, "%zu characters written to a buffer of %zu", strlen(h), room);
    for (i = 0; i < m; i++) VF_CHECK(hv(h[2*i]) == b[i]/16 && hv(h[2*i+1]) == b[i]%16 && !(h[2*i] >= 'A' && h[2*i] <= 'F'), "byte %zu of the hex encoding", i);
  }
  h = vf_alloc(2*n + 1); strhex_encode(h, 2*n + 1, b, n);

  if (vf_bool()) for (i = 0; i < 2*n; i++) if (vf_bool() && h[i] >= 'a' && h[i] <= 'f') h[i] -= 32;
  room = vf_bool() ? n : vf_choice(n + 3); c = vf_alloc(room);
  if (vf_bool()) {
    r = strhex_decode(c, room, h, vf_bool() ? -1 : (int)(2*n));
    VF_CHECK(r == (int)n && !memcmp(c, b, room < n ? room : n), "hex decoding");
    for (i = n; i < room; i++) VF_CHECK(c[i] == 0xA5, "hex decoding wrote too much");
  } else if (n) {
    i = vf_choice(2*n);
    if (vf_bool()) { h[i] = "gG/:@`xX \xc1\xe1\x10"[vf_choice(12)]; r = strhex_decode(c, room, h, 2*n); VF_CHECK(room > i/2 ? r == -1 : r == (int)n, "character 0x%02x in hex text is accepted", (unsigned char)h[i]); }
    else { h[2*n-1] = 0; VF_CHECK(strhex_decode(c, room, h, vf_bool() ? -1 : (int)(2*n - 1)) == -1, "an odd number of hex digits is accepted"); }
  }
}
VfBody vf_bodies[] = { {"every", body_every, 1}, {"any", body_any, 1}, {"bytes", body_bytes, 0}, {"hex", body_hex, 0}, {NULL} };
