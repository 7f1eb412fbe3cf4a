#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils/strutils.h"
#include "../specs/semver_ref.h"
/* V01: semantic versions */
static int ident(char *s, int digits)
{
  int n = 1 + vf_choice(vf_choice(4) ? 3 : 25), i; const char *al = digits ? "0123456789" : vf_bool() ? "019aAzZ-" : "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-";
  vf_str(s, n, al);
  if (digits && n > 1 && s[0] == '0' && vf_choice(20)) s[0] = '1' + vf_choice(9);
  for (i = 0; i < n; i++) if (!s[i]) return i;
  return n;
}
static int gen(char *s, int near)
{
  int n = 0, i, k;
  if (near) { n = vf_choice(3) ? 0 : 0; }
  for (i = 0; i < 3; i++) { if (i) s[n++] = '.'; if (near) s[n++] = "0123456789"[vf_choice(2)]; else n += ident(s + n, 1); }
  if (vf_choice(3)) { s[n++] = '-'; for (k = 1 + vf_choice(3); k; k--) { if (near) { int m = 1 + vf_choice(2); vf_str(s + n, m, "01a-"); n += m; } else n += ident(s + n, vf_bool()); if (k > 1) s[n++] = '.'; } }
  if (!vf_choice(3)) { s[n++] = '+'; for (k = 1 + vf_choice(3); k; k--) { n += ident(s + n, vf_bool()); if (k > 1) s[n++] = '.'; } }
  s[n] = 0; return n;
}
static void body_small(void)                     /* every short text over the characters that matter */
{
  char s[8]; int n = vf_choice(8); vf_str(s, n, "01a.-+ "); s[n] = 0; 
  char *d = vf_dup(s, n), *x = vf_alloc(n); memcpy(x, s, n);
  int w = ref_valid(s, n);
  VF_CHECK(strchk_semver(d) == w && strnchk_semver(x, n) == w, "\"%s\" checked as %d, expected %d", s, strchk_semver(d), w);
}
static void body_valid(void)
{
  char s[400]; int n = gen(s, vf_bool()), m, w;
  if (vf_bool()) { int i = vf_choice(n); s[i] = ".-+0 9a\x80_"[vf_choice(9)]; }
  m = vf_choice(3) ? n : vf_choice(n + 8);
  char *d = vf_dup(s, n), *x = vf_alloc(m < n ? m : n + 1); memcpy(x, s, m < n ? m : n + 1);
  w = ref_valid(s, n); VF_CHECK(strchk_semver(d) == w, "\"%s\" checked as %d, expected %d", s, strchk_semver(d), w);
  w = ref_valid(s, m); VF_CHECK(strnchk_semver(x, m) == w, "first %d of \"%s\" checked as %d, expected %d", m, s, strnchk_semver(x, m), w);
}
static void body_order(void)
{
  char a[400], b[400], c[400]; int near = vf_choice(3) > 0; gen(a, near); gen(b, near); gen(c, near);
  if (!vf_choice(3)) { strcpy(b, a); char *p = b + vf_choice(strlen(b)); *p = "0123456789abAB-."[vf_choice(16)]; if (vf_bool()) strcat(b, vf_bool() ? ".0" : "1"); }
  if (ref_valid(a, 400) < 0 || ref_valid(b, 400) < 0 || ref_valid(c, 400) < 0) vf_skip();
  char *x = vf_dup(a, strlen(a)), *y = vf_dup(b, strlen(b)), *z = vf_dup(c, strlen(c)); int r = strcmp_semver(x, y), w = ref_cmp(a, b), u, v, n = strlen(a) > strlen(b) ? strlen(a) : strlen(b);
  VF_CHECK(r == w, "\"%s\" and \"%s\" compared as %d, expected %d", a, b, r, w);
  VF_CHECK(strncmp_semver(x, y, n + vf_choice(5)) == w, "strncmp_semver(\"%s\", \"%s\")", a, b);
  VF_CHECK(strcmp_semver(y, x) == -w && strcmp_semver(x, x) == 0, "antisymmetric: \"%s\" and \"%s\"", a, b);
  u = strcmp_semver(y, z); v = strcmp_semver(x, z);
  VF_CHECK(!(r <= 0 && u <= 0) || (v <= 0 && (v < 0 || (r == 0 && u == 0))), "transitive: \"%s\", \"%s\", \"%s\"", a, b, c);
}
VfBody vf_bodies[] = {{"small", body_small, 1}, {"valid", body_valid, 0}, {"order", body_order, 0}, {NULL, NULL, 0}};
