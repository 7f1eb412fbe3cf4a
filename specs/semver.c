/* V01: contracts for strnchk_semver, strchk_semver, strncmp_semver, strcmp_semver (utils/strutils.c) */
#include <assert.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include "integers.h"
#include "utils/compat.h"
#include "utils/clp2.h"
#include "utils/strutils.h"
#include "utils/strutils.c"
#include "semver_ref.h"
#ifndef PRE
# define PRE ""
#endif
#define NP ((int)sizeof(PRE) - 1)
static void text(char *s, int n) { int i; for (i = 0; i < n; i++) if (i < NP) s[i] = PRE[i]; else if (s[i] == 0 || s[i] < 0) s[i] = ' '; s[n] = 0; }
#ifdef U_CHK
void h_nchk(void)           /* exactly LEN readable bytes: reading behind them is a failed obligation */
{
  char *s = malloc(LEN); int i, w; __CPROVER_assume(s);
  for (i = 0; i < NP; i++) s[i] = PRE[i];
  w = ref_valid(s, LEN);
  __CPROVER_assert(strnchk_semver(s, LEN) == w, "length of a valid version within the given bytes, -1 otherwise");
  VF_REACH("nchk");
}
void h_chk(void)
{
  char s[LEN + 1]; int w; text(s, LEN); w = ref_valid(s, LEN);
  __CPROVER_assert(strchk_semver(s) == w, "length of a valid version, -1 otherwise");
  VF_REACH("chk");
}
#else
void h_cmp(void)
{
  char a[LEN + 1], b[LEN2 + 1]; int w, r; text(a, LEN); text(b, LEN2);
  __CPROVER_assume(ref_valid(a, LEN) == LEN && ref_valid(b, LEN2) == LEN2);
  w = ref_cmp(a, b); r = strcmp_semver(a, b);
  __CPROVER_assert(r == w, "order of valid versions");
  VF_REACH("cmp");
}
#endif
