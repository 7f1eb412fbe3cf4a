#include "vf.h"
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils/infixcalc.h"
#include "infix_ref.h"
static const InfixCalcVariable vars[] = { {"N", 3}, {"M", 2}, {"NM", 7}, {"n_1", -4}, {"_z", 0}, {"big", INT_MAX}, {"low", INT_MIN}, {"m", -1} };
static void check(const char *s)
{
  long want; int r, got; size_t el = vf_choice(4) ? 256 : vf_choice(40); char *err = vf_alloc(el), *t = vf_dup(s, strlen(s));
  r = refer(s, &want);
  if (r == 2) return;
  if (el) err[0] = 'x';
  if (vf_choice(8) == 0) { got = infixcalc(t, NV ? V : NULL, NV, NULL, vf_bool() ? 0 : 100); el = 0; }
  else got = infixcalc(t, NV ? V : NULL, NV, err, el);
  VF_CHECK(!strcmp(s, t), "the expression was changed");
  if (r == 1) {
    VF_CHECK(got == INT_MIN, "\"%s\" is evaluated to %d, expected an error", s, got);
    if (el) VF_CHECK(memchr(err, 0, el) != NULL && (el == 1 || err[0]), "no error message for \"%s\"", s);
  } else {
    VF_CHECK(got == want, "\"%s\" is evaluated to %d, expected %ld", s, got, want);
    if (el) VF_CHECK(err[0] == 0, "error message \"%.*s\" for the valid \"%s\"", (int)el, err, s);
  }
}
static void usevars(void) { V = vars; NV = vf_choice(3) ? 8 : vf_choice(9); }
static void body_tokens(void)      /* all short token sequences */
{
  static const char *const tok[] = {"2", "(", ")", "*", "+", "N", "0", "/", "-", "^", "<", " ", "!", "|", "&", "="};
  char b[64] = ""; size_t n = vf_choice(6), i; V = vars; NV = 8;
  for (i = 0; i < n; i++) strcat(b, tok[vf_choice(16)]);
  long want; int r = refer(b, &want), got; char err[256] = "x";
  if (r == 2) return;
  got = infixcalc(b, V, NV, err, sizeof err);
  VF_CHECK(r == 1 ? got == INT_MIN && err[0] : got == want && !err[0], "\"%s\" is evaluated to %d (message \"%s\"), expected %s %ld", b, got, err, r ? "an error" : "", want);
}
static char B[8192]; static size_t bn;
static void put(const char *s) { size_t n = strlen(s); if (bn + n >= sizeof B - 1) vf_skip(); memcpy(B + bn, s, n + 1); bn += n; }
static void sp(void) { static const char *const w[] = {"", "", "", "", " ", "\t", "\n", "  "}; put(w[vf_choice(8)]); }
static void gen(int depth)
{
  char b[40]; static const char ops[] = "+-*/%^<>=!&|";
  sp();
  if (depth <= 0 || vf_choice(4) == 0) {
    switch (vf_choice(8)) {
    case 0: case 1: sprintf(b, "%d", (int)vf_choice(10)); break;
    case 2: sprintf(b, "%d", (int)(vf_u64() & INT_MAX)); break;
    case 3: sprintf(b, "0x%x", (unsigned)vf_choice(300)); break;
    case 4: sprintf(b, "0%o", (unsigned)vf_choice(300)); break;
    case 5: sprintf(b, "%llu", (unsigned long long)vf_u64()); break;
    default: strcpy(b, vars[vf_choice(8)].name);
    }
    put(b);
  } else if (vf_choice(3) == 0) { put("("); gen(depth - 1); put(")"); }
  else { gen(depth - 1); sp(); b[0] = ops[vf_choice(12)]; b[1] = 0; put(b); gen(depth - 1); }
  sp();
}
static void body_valid(void) { bn = 0; B[0] = 0; usevars(); gen((int)vf_choice(6)); check(B); }
static void body_damaged(void)
{
  size_t k, i; bn = 0; B[0] = 0; usevars(); gen((int)vf_choice(4));
  for (k = 1 + vf_choice(3); k && bn; k--) {
    i = vf_choice(bn);
    switch (vf_choice(3)) {
    case 0: memmove(B + i, B + i + 1, bn - i); bn--; break;
    case 1: B[i] = "()+-*/%^ 0N9x_.,\x80z"[vf_choice(18)]; break;
    default: memmove(B + i + 1, B + i, bn - i + 1); B[i] = "()+-*/%^ 0N9x_.,\x80z"[vf_choice(18)]; bn++;
    }
  }
  check(B);
}
static void body_deep(void)        /* more pending operators and values than a stack chunk holds */
{
  size_t n = vf_choice(200), i, close = vf_choice(4) ? n : vf_choice(n + 3); bn = 0; B[0] = 0; V = vars; NV = 8;
  for (i = 0; i < n; i++) put(vf_choice(3) ? "1+(" : "(");
  put("N");
  for (i = 0; i < close; i++) put(vf_choice(3) ? ")" : ")*1");
  check(B);
}
static void body_depend(void)
{
  static const char *const name[] = {"N", "NM", "n_1", "_z", "aa"};
  static const char *const piece[] = {"N", "M", "NM", "n_1", "_z", "_", "1", "+", " ", "(", "aa", "a", "*"};
  char b[200] = ""; size_t n = vf_choice(8), i; const char *v = name[vf_choice(5)], *p; int want = 0;
  for (i = 0; i < n; i++) strcat(b, piece[vf_choice(13)]);
  for (p = b; *p; ) {
    const char *q = p; if (!isal(*p) && !isdg(*p)) { p++; continue; }
    while (isal(*p) || isdg(*p)) p++;
    if ((size_t)(p - q) == strlen(v) && !memcmp(q, v, p - q)) want = 1;
  }
  int got = infixcalc_depend(vf_dup(b, strlen(b)), v);
  VF_CHECK(!!got == want, "\"%s\" %s on %s", b, want ? "depends" : "does not depend", v);
}
VfBody vf_bodies[] = { {"tokens", body_tokens, 1}, {"depend", body_depend, 0}, {"valid", body_valid, 0}, {"damaged", body_damaged, 0}, {"deep", body_deep, 0}, {NULL} };
