#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "dlite.h"
#include "dlite-misc.h"
#include "dlite-behavior.h"
#include "utils/uuid.h"
#include "utils/uuid4.h"
#include "utils/err.h"
#include "sha1_ref.h"
/* U01: which UUID belongs to an id */
static int ref_isuuid(const char *s) { int i; for (i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !s[i] || !strchr("0123456789abcdefABCDEF", s[i])) return 0; return 1; }
static void v5(const char *pre, const char *name, size_t n, char out[37])
{
  static const unsigned char dns[16] = {0x6b,0xa7,0xb8,0x10,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8};
  size_t k = strlen(pre); unsigned char *m = malloc(16 + k + n + 1), h[20]; int i, j = 0;
  memcpy(m, dns, 16); memcpy(m + 16, pre, k); memcpy(m + 16 + k, name, n); ref_sha1(m, 16 + k + n, h); free(m);
  h[6] = (h[6] & 15) | 0x50; h[8] = (h[8] & 0x3f) | 0x80;
  for (i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) out[j++] = '-'; j += sprintf(out + j, "%02x", h[i]); }
}
static void gen_uuid(char *s)         /* any text of the form, either case */
{ int i; for (i = 0; i < 36; i++) s[i] = i == 8 || i == 13 || i == 18 || i == 23 ? '-' : "0123456789abcdefABCDEF"[vf_choice(22)]; s[36] = 0; }
static void quiet(void) { static int once; if (!once++) { err_set_stream(NULL); dlite_init(); } }
static void body_id(void)
{
  char id[2400], want[37], buff[40], u[37]; int kind = vf_choice(5), i, ns = vf_bool(), embed = vf_bool(); size_t n, k; DLiteIdType wt, t;
  quiet();
  memset(buff, '#', sizeof(buff)); want[0] = want[36] = 0;
  switch (kind) {
  case 0: gen_uuid(id); for (i = 0; i < 36; i++) want[i] = tolower(id[i]); wt = dliteIdCopy; break;
  case 1: case 2:                                       /* URL, possibly ending in a UUID */
    n = sprintf(id, "%s", (const char *[]){"http://onto-ns.com/meta", "https://a.b", "http://example.com:80/x", "ftp://u@h/p", "http://xy", "urn:abc:de", "file:///a/b/cdef"}[vf_choice(7)]);
    if (vf_bool() && n + 0 > 0 && strstr(id, "://")) { id[n++] = '/'; id[n++] = 'q'; for (k = vf_choice(vf_bool() ? 20 : 400); k; k--) id[n++] = "abzAZ059-._~/%41:@!$&'()*+,;="[vf_choice(29)]; while (id[n-1] == '%' || id[n-1] == '4' || id[n-1] == '1') n--; 
      for (k = 0; k < n; k++) if (id[k] == '%') { if (k + 2 < n) { id[k+1] = '4'; id[k+2] = 'f'; } else id[k] = 'x'; } }
    id[n] = 0;
    if (kind == 2) { if (!strstr(id + 8, "/")) id[n++] = '/'; else if (id[n-1] != '/') id[n++] = '/'; gen_uuid(u); strcpy(id + n, u); for (i = 0; i < 36; i++) want[i] = tolower(u[i]); wt = dliteIdCopy; }
    else { n = strlen(id); if (n > 45 && ref_isuuid(id + n - 36)) vf_skip(); v5("", id, n, want); wt = dliteIdHash; }
    break;
  default:                                              /* a name */
    n = 1 + vf_choice(vf_bool() ? 12 : vf_bool() ? 300 : 1500);
    if (vf_choice(4) == 0) n = 225 + vf_choice(12);
    for (k = 0; k < n; k++) id[k] = kind == 3 ? "abcxyzABC0189_-. /\xc3\xa6"[vf_choice(20)] : (char)(1 + vf_choice(255));
    id[n] = 0; for (k = 0; k < n; k++) if (id[k] == ':') id[k] = ';';
    if (n == 36 && ref_isuuid(id)) vf_skip();
    v5(ns ? "http://onto-ns.com/data/" : "", id, n, want); wt = dliteIdHash;
  }
  n = strlen(id);
  if (!embed) {
    char *s = vf_dup(id, n);
    if (vf_bool()) { t = _dlite_get_uuidn(buff, s, n, ns); }
    else { dlite_behavior_set("namespacedID", ns); t = dlite_get_uuid(buff, s); }
    VF_CHECK(!strcmp(s, id), "the id was modified");
  } else {                                              /* as part of a larger text */
    char *s = vf_alloc(n + 3); memcpy(s, id, n); s[n] = "\"x/#:} -"[vf_choice(8)]; s[n+1] = vf_bool() ? 'f' : '/'; s[n+2] = 0;
    t = _dlite_get_uuidn(buff, s, n, ns);
  }
  VF_CHECK(t == wt, "id \"%s\": type %d, expected %d", id, t, wt);
  VF_CHECK(!memcmp(buff, want, 37), "id \"%s\" (namespaced %d): uuid %.36s, expected %s", id, ns, buff, want);
  VF_CHECK(buff[37] == '#', "wrote beyond 37 bytes");
  t = dlite_idtype(id);
  if (!strchr("/#", id[n-1])) VF_CHECK(t == wt, "dlite_idtype(\"%s\") is %d, expected %d", id, t, wt);
}
static void body_random(void)
{
  static char seen[64][37]; static int ns; char b[40]; int i;
  quiet(); memset(b, '#', sizeof(b));
  VF_CHECK((vf_bool() ? dlite_get_uuid(b, vf_bool() ? NULL : "") : dlite_get_uuidn(b, "abc", 0)) == dliteIdRandom, "no id");
  for (i = 0; i < 36; i++) VF_CHECK(i == 8 || i == 13 || i == 18 || i == 23 ? b[i] == '-' : b[i] && strchr("0123456789abcdef", b[i]), "random uuid %s", b);
  VF_CHECK(b[36] == 0 && b[37] == '#' && b[14] == '4' && strchr("89ab", b[19]), "random uuid %s", b);
  for (i = 0; i < ns; i++) VF_CHECK(strcmp(b, seen[i]), "the same random uuid twice");
  if (ns < 64) strcpy(seen[ns++], b); else strcpy(seen[vf_choice(64)], b);
}
static void body_text(void)
{
  char s[40], b[37], w[37]; uuid_s u, v, z; int i, r, good = 1; size_t n = 36;
  gen_uuid(s); s[37] = 0;
  if (vf_bool()) {
    i = vf_choice(36); s[i] = i == 8 || i == 13 || i == 18 || i == 23 ? "0af xg_"[vf_choice(7)] : "-gG xX+/:@`\x80 "[vf_choice(12)]; good = 0;
  }
  if (vf_choice(8) == 0) { n = vf_choice(40); if (n < 36 && vf_bool()) s[n] = 0; good = good && n == 36; }
  char *t = vf_dup(s, strlen(s));
  VF_CHECK(!isuuid(t) == !ref_isuuid(s) && !dlite_isuuid(t) == !ref_isuuid(s), "isuuid(\"%s\")", t);
  memset(&u, 0x5a, sizeof(u)); z = u;
  r = uuid_from_string(vf_bool() ? &u : &v, t, n);
  VF_CHECK((r == 0) == good, "uuid_from_string(\"%s\", %d) returns %d", t, (int)n, r);
  if (r) { VF_CHECK(!memcmp(&u, &z, sizeof(u)), "a refused text modified the result"); return; }
  uuid_from_string(&u, t, n); uuid_as_string(&u, b); for (i = 0; i < 37; i++) w[i] = tolower(s[i]);
  VF_CHECK(!strcmp(b, w), "\"%s\" becomes \"%s\"", w, b);
  gen_uuid(s); if (vf_bool()) { strcpy(s, w); i = vf_choice(36); if (s[i] != '-') s[i] = "0123456789abcdef"[vf_choice(16)]; } uuid_from_string(&v, s, 36); for (i = 0; i < 36; i++) s[i] = tolower(s[i]);
  r = uuid_compare(&u, &v); i = strcmp(w, s);
  VF_CHECK((r > 0) - (r < 0) == (i > 0) - (i < 0), "comparing %s with %s gives %d", w, s, r);
}
static void body_norm(void)
{
  char b[300], c[300], id[80], u1[37], u2[37]; int i, n, m; size_t room;
  quiet();
  n = 1 + vf_choice(30); for (i = 0; i < n; i++) id[i] = "abcXYZ019_-."[vf_choice(12)]; id[n] = 0;
  if (vf_choice(4) == 0) gen_uuid(id); else if (vf_choice(4) == 0) { memmove(id + 9, id, n + 1); memcpy(id, "http://x/", 9); }
  n = strlen(id);
  m = dlite_normalise_id(b, sizeof(b), id, NULL);
  sprintf(c, "%s%s", strncmp(id, "http:", 5) ? "http://onto-ns.com/data/" : "", id);
  VF_CHECK(m == (int)strlen(c) && !strcmp(b, c), "normalised id of \"%s\" is \"%s\"", id, b);
  room = vf_choice(m + 4); char *s = vf_alloc(room); int k = dlite_normalise_id(s, room, id, NULL);
  VF_CHECK(k == m && (!room || (strlen(s) == (room > (size_t)m ? (size_t)m : room - 1) && !strncmp(s, c, strlen(s)))), "normalised id in a buffer of %zu", room);
  _dlite_get_uuidn(u1, id, n, 1); _dlite_get_uuidn(u2, b, m, 1);
  VF_CHECK(!strcmp(u1, u2), "id \"%s\" and its normalised form have different uuids", id);
}
VfBody vf_bodies[] = { {"id", body_id, 0}, {"text", body_text, 0}, {"random", body_random, 0}, {"norm", body_norm, 0}, {NULL} };
