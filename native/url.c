#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <regex.h>
#include "utils/strutils.h"
#include "utils/urlsplit.h"
#include "utils/err.h"
#include "dlite.h"
#include "dlite-misc.h"
/* W01: recognising, splitting and joining URLs and metadata URIs; oracle: POSIX regular expressions */
#define PC "([A-Za-z0-9._~!$&'()*+,;=-]|%[0-9A-Fa-f][0-9A-Fa-f])"
#define PCC(x) "([A-Za-z0-9._~!$&'()*+,;=" x "-]|%[0-9A-Fa-f][0-9A-Fa-f])"
static const char ERE[] = "^([A-Za-z][A-Za-z0-9+.-]*):(//((" PCC(":") "+)@)?(\\[[0-9A-Fa-f:]*\\]|\\[[vV][0-9A-Fa-f]\\." PCC(":") "*\\]|" PC "*)(:([0-9]*))?)?(" PCC("/:@") "*)(\\?(" PCC("/:@?") "*))?(#(" PCC("/:@?") "*))?$";
/* groups: 1 scheme 2 //authority 3 user@ 4 user 6 host 10 port 11 path 13 ?query 14 query 16 #f 17 f : found by position below */
enum { G_SCHEME = 1, G_AUTH = 2, G_USERAT = 3, G_USER = 4, G_HOST = 6, G_PORTC = 9, G_PORT = 10, G_PATH = 11, G_QM = 13, G_Q = 14, G_FM = 16, G_F = 17, NG = 19 };
static int ref(const char *s, regmatch_t *g)
{
  static regex_t re; static int ready;
  if (!ready++) { if (regcomp(&re, ERE, REG_EXTENDED)) abort(); }
  if (isupper((unsigned char)s[0]) && s[1] == ':') return 0;
  if (regexec(&re, s, NG, g, 0)) return 0;
  if (g[G_PATH].rm_eo - g[G_PATH].rm_so >= 2 && s[g[G_PATH].rm_so] == '/' && s[g[G_PATH].rm_so + 1] == '/') return 0;
  if (g[G_AUTH].rm_so >= 0 && g[G_PATH].rm_eo > g[G_PATH].rm_so && s[g[G_PATH].rm_so] != '/') return 0;
  return 1;
}
static void comp(const char *s, const char *what, const char *p, int n, regmatch_t m)
{
  int len = m.rm_so < 0 ? 0 : m.rm_eo - m.rm_so;
  VF_CHECK(n == len && (!len || p == s + m.rm_so), "%s of \"%s\" is \"%.*s\", expected \"%.*s\"", what, s, p ? n : 0, p ? p : "", len, len ? s + m.rm_so : "");
}
static void compare(const char *s, int joinable)
{
  regmatch_t g[NG]; UrlComponents c; size_t n = strlen(s); char *t = vf_dup(s, n); int ok = ref(t, g), r, i;
  VF_CHECK(!isurl(t) == !ok, "isurl(\"%s\") is %d", s, isurl(t));
  memset(&c, 0x77, sizeof(c));
  r = urlsplit(t, &c);
  if (ok) {
    VF_CHECK(r == (int)n, "urlsplit(\"%s\") returns %d, expected %d", s, r, (int)n);
    comp(t, "scheme", c.scheme, c.scheme_len, g[G_SCHEME]); comp(t, "userinfo", c.userinfo, c.userinfo_len, g[G_USER]);
    comp(t, "host", c.host, c.host_len, g[G_HOST]); comp(t, "port", c.port, c.port_len, g[G_PORT]); comp(t, "path", c.path, c.path_len, g[G_PATH]);
    comp(t, "query", c.query, c.query_len, g[G_Q]); comp(t, "fragment", c.fragment, c.fragment_len, g[G_F]);
    VF_CHECK(c.path && c.scheme, "scheme and path are always given");
    if (c.authority) VF_CHECK(c.authority >= t && c.authority + c.authority_len <= t + n && c.authority_len == g[G_AUTH].rm_eo - g[G_AUTH].rm_so - 2, "authority of \"%s\"", s);
    else VF_CHECK(g[G_AUTH].rm_so < 0, "authority of \"%s\" is missing", s);
    /* joining: names as host, nothing percent-encoded, no empty parts */
    if (joinable && !strchr(s, '%') && !strchr(s, '[') && (g[G_AUTH].rm_so < 0 || c.host_len) && !(g[G_PORTC].rm_so >= 0 && !c.port_len) && !(g[G_QM].rm_so >= 0 && !c.query_len) && !(g[G_FM].rm_so >= 0 && !c.fragment_len)) {
      size_t room = vf_bool() ? n + 1 : vf_choice(n + 3), w = room > n ? n : room ? room - 1 : 0; char *b = vf_alloc(room);
      r = urljoin(b, room, &c);
      VF_CHECK(r == (int)n, "joining \"%s\" returns %d", s, r);
      if (room) VF_CHECK(strlen(b) == w && !memcmp(b, s, w), "joining \"%s\" gives \"%s\"", s, b);
    }
  }
  /* only the given characters count, whatever follows */
  char *e = vf_alloc(n + 3); memcpy(e, s, n); e[n] = "\"x/#?:@] 0%"[vf_choice(11)]; e[n+1] = "/xa@]"[vf_choice(5)]; e[n+2] = 0;
  if (n) {
    VF_CHECK(!isurln(e, n) == !ok, "isurln(\"%s\", %d) is %d", e, (int)n, isurln(e, n));
    memset(&c, 0x77, sizeof(c)); r = urlsplitn(e, n, &c);
    if (ok) { VF_CHECK(r == (int)n, "urlsplitn(\"%s\", %d) returns %d", e, (int)n, r); comp(e, "host (part of a text)", c.host, c.host_len, g[G_HOST]); comp(e, "path (part of a text)", c.path, c.path_len, g[G_PATH]); comp(e, "query (part of a text)", c.query, c.query_len, g[G_Q]); comp(e, "fragment (part of a text)", c.fragment, c.fragment_len, g[G_F]); }
    else if (!(isupper((unsigned char)s[0]) && s[1] == ':')) VF_CHECK(r < (int)n, "urlsplitn(\"%s\", %d) returns %d for no URL", e, (int)n, r);
  }
  (void)i;
}
static void body_small(void)
{
  char s[16]; int i, n = vf_choice(8); for (i = 0; i < n; i++) s[i] = "a:/?#@[%A1"[vf_choice(vf_enumerating() ? 8 : 10)]; s[n] = 0; compare(s, 1);
}
static void put(char **p, const char *alpha, int max) { int n = vf_choice(max + 1), m = strlen(alpha); while (n--) { char c = alpha[vf_choice(m)]; *(*p)++ = c; if (c == '%') { *(*p)++ = "0aFf9"[vf_choice(5)]; *(*p)++ = "0aFf9"[vf_choice(5)]; } } }
static void body_url(void)
{
  char s[400], *p = s; int i;
  *p++ = "abzhfA"[vf_choice(6)]; put(&p, "abzAZ09+.-", 6); *p++ = ':';
  if (vf_choice(3)) {
    *p++ = '/'; *p++ = '/';
    if (vf_bool()) { put(&p, "abzAZ09+.-:~%!$&", 6); *p++ = '@'; }
    if (vf_choice(5) == 0) { *p++ = '['; if (vf_bool()) { *p++ = 'v'; *p++ = 'f'; *p++ = '.'; put(&p, "ab:%", 4); } else put(&p, "0af9:", 8); *p++ = ']'; } else put(&p, "abzAZ09+.-~%!$&'", 8);
    if (vf_bool()) { *p++ = ':'; put(&p, "0123456789", 5); }
  }
  if (vf_choice(4)) { *p++ = '/'; put(&p, "abzAZ09+.-:~%!$&/@", 12); }
  if (vf_bool()) { *p++ = '?'; put(&p, "abzAZ09+.-:~%!$&/@?=", 12); }
  if (vf_bool()) { *p++ = '#'; put(&p, "abzAZ09+.-:~%!$&/@?", 12); }
  *p = 0;
  if (vf_choice(3) == 0) { i = vf_choice(p - s); s[i] = " \"<>^{}|\\`\t\x7f\xc3\x80#@[]%:/?"[vf_choice(24)]; }
  compare(s, 1);
}
static void body_pct(void)
{
  char s[40], e[200]; int n = vf_choice(20), i, j = 0, r; size_t room; char *b;
  for (i = 0; i < n; i++) s[i] = vf_bool() ? (char)(1 + vf_choice(255)) : "abz09-._~!$&'()*+,;=:/?#%"[vf_choice(25)]; s[n] = 0;
  for (i = 0; i < n; i++) if (isalnum((unsigned char)s[i]) ? (unsigned char)s[i] < 128 : s[i] && strchr("-._~!$&'()*+,;=", s[i]) != NULL) e[j++] = s[i]; else j += sprintf(e + j, "%%%02X", (unsigned char)s[i]);
  e[j] = 0;
  room = j + 1; b = vf_alloc(room);
  r = pct_encode(b, room, vf_dup(s, n));
  VF_CHECK(r == j && !strcmp(b, n ? e : b), "percent encoding gives \"%s\", expected \"%s\"", b, e);
  room = 1 + vf_choice(j + 2); b = vf_alloc(room); *b = 0; r = pct_encode(b, room, s);
  VF_CHECK(r == j && strlen(b) < room && !strncmp(b, e, strlen(b)) && strlen(b) + 3 >= (room > (size_t)j ? (size_t)j : room - 1), "percent encoding into %zu bytes gives \"%s\"", room, b);
  b = vf_alloc(n + 5); r = pct_decode(b, n + 5, e);
  VF_CHECK(r == n && !memcmp(b, s, n), "percent decoding of \"%s\"", e);
  VF_CHECK(pct_ndecode(b, n + 5, strcat(e, "zz"), j) == n && !memcmp(b, s, n), "percent decoding of part of a text");
  strcpy(e + j, (const char *[]){"%", "%4", "%g0", "%0g", "%%41"}[vf_choice(5)]);
  VF_CHECK(pct_decode(vf_alloc(n + 9), n + 9, e) < 0, "malformed escape in \"%s\" is accepted", e);
}
static void body_meta(void)             /* namespace/version/name */
{
  static int once; if (!once++) { err_set_stream(NULL); dlite_init(); }
  char ns[40], ver[20], name[20], uri[100], *p, *a = NULL, *b = NULL, *c = NULL; int r;
  p = ns; put(&p, "http://a.b", 20); *p = 0; p = ver; put(&p, "0123.a-", 6); *p = 0; p = name; put(&p, "abAB_09", 8); *p = 0;
  char *j = dlite_join_meta_uri(name, ver, ns);
  sprintf(uri, "%s/%s/%s", ns, ver, name);
  if (*ns || *ver || *name) VF_CHECK(j && !strcmp(j, uri), "joined uri \"%s\"", j ? j : "(null)");
  free(j);
  if (!*ns) {
    if (vf_bool()) sprintf(uri, "%s%s", vf_bool() ? "/" : "", name);       /* no version */
    r = dlite_split_meta_uri(vf_dup(uri, strlen(uri)), &a, &b, &c);
    VF_CHECK(r && !a && !b && !c, "\"%s\" is accepted as metadata uri", uri);
    return;
  }
  r = dlite_split_meta_uri(vf_dup(uri, strlen(uri)), vf_bool() ? &a : NULL, vf_bool() ? &b : NULL, vf_bool() ? &c : NULL);
  VF_CHECK(!r, "\"%s\" is refused", uri);
  VF_CHECK((!a || !strcmp(a, name)) && (!b || !strcmp(b, ver)) && (!c || !strcmp(c, ns)), "\"%s\" is split into %s, %s, %s", uri, c ? c : "-", b ? b : "-", a ? a : "-");
  free(a); free(b); free(c);
}
VfBody vf_bodies[] = { {"small", body_small, 1}, {"url", body_url, 0}, {"pct", body_pct, 0}, {"meta", body_meta, 0}, {NULL} };
