#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
size_t g_k, g_pos, *g_P; int *g_I;
size_t w_n, w_cap; char *w_src;
/* RFC 3986: unreserved characters stand for themselves, every other byte is written %XX */
#define UNRES(c) (((c) >= 'A' && (c) <= 'Z') || ((c) >= 'a' && (c) <= 'z') || ((c) >= '0' && (c) <= '9') || (c) == '-' || (c) == '.' || (c) == '_' || (c) == '~')
#define HEXD(v) ((char)((v) < 10 ? '0' + (v) : 'A' + (v) - 10))
#define WIDTH(c) ((size_t)(UNRES(c) ? 1 : 3))
#define ENCODED(t, p, c) (UNRES(c) ? (t)[p] == (c) : ((t)[p] == '%' && (t)[(p)+1] == HEXD((unsigned char)(c) >> 4) && (t)[(p)+2] == HEXD((unsigned char)(c) & 15)))
#define MAX ((size_t)1 << 40)
#include "utils/uri_encode.c"
#define RET __CPROVER_return_value
#ifdef U_ENC
static char S[CAP], D[3*CAP + 1];
static size_t P_[CAP + 1];
size_t uri_encode(const char *src, const size_t len, char *dst)
__CPROVER_requires(src == S && len == w_n && (dst == NULL || dst == D))
__CPROVER_assigns(dst != NULL: __CPROVER_object_whole(D))
__CPROVER_ensures(RET == g_P[w_n])
__CPROVER_ensures((dst != NULL && g_k < w_n) ==> (g_P[g_k] < RET && g_P[g_k + 1] <= RET && g_P[g_k + 1] == g_P[g_k] + WIDTH(S[g_k]) && ENCODED(D, g_P[g_k], S[g_k])))
__CPROVER_ensures(dst != NULL ==> D[RET] == 0)
;
void harness(void)
{
  size_t n; _Bool nul;
  __CPROVER_assume(n <= CAP);
  w_n = n; g_P = P_; __CPROVER_assume(g_P[0] == 0);
  uri_encode(S, n, nul ? NULL : D);
  VF_REACH("encode");
}
#endif
#ifdef U_DEC
static char S[3*CAP], D[CAP + 1], W[CAP];
static size_t P_[CAP + 1];
size_t uri_decode(const char *src, const size_t len, char *dst)
__CPROVER_requires(src == S && len == w_cap && (dst == NULL || dst == D) && g_P[w_n] == len && g_P[0] == 0 && (w_n == 0) == (len == 0))
__CPROVER_assigns(dst != NULL: __CPROVER_object_whole(D))
__CPROVER_ensures(RET == w_n)
__CPROVER_ensures((dst != NULL && g_k < w_n) ==> D[g_k] == w_src[g_k])
__CPROVER_ensures(dst != NULL ==> D[RET] == 0)
;
void harness(void)
{
  size_t n, len; _Bool nul;
  __CPROVER_assume(n <= CAP && len <= 3*CAP);
  w_n = n; w_cap = len; w_src = W; g_P = P_;
  __CPROVER_assume(g_P[0] == 0 && g_P[n] == len && (n == 0) == (len == 0));
  uri_decode(S, len, nul ? NULL : D);
  VF_REACH("decode");
}
#endif
#ifdef U_SMALL
/* any text: length and content of the decoding, and the size announced is the size written (bounded) */
void harness(void)
{
  char s[LEN + 1], want[LEN + 1], d[LEN + 1]; size_t n, i = 0, j = 0, k;
  __CPROVER_assume(n <= LEN);
#define HV(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : (c) >= 'A' && (c) <= 'F' ? (c) - 'A' + 10 : 99)
  while (i < n) {
    if (s[i] == '%' && n - i >= 3 && HV(s[i+1]) < 16 && HV(s[i+2]) < 16) { want[j++] = (char)(HV(s[i+1])*16 + HV(s[i+2])); i += 3; }
    else want[j++] = s[i++];
  }
  k = uri_decode(s, n, d);
  __CPROVER_assert(k == j && d[j] == 0, "length of the decoded text");
  for (i = 0; i < j; i++) __CPROVER_assert(d[i] == want[i], "decoded text");
  __CPROVER_assert(uri_decode(s, n, NULL) == j, "announced length");
  VF_REACH("small");
}
#endif
