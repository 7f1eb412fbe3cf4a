#include <assert.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include "integers.h"
#include "utils/compat.h"
#include "utils/clp2.h"
#include "utils/strutils.h"
size_t g_k, g_pos, *g_P; int *g_I;
size_t clp2(size_t n);
/* the only formatting used by the functions under contract is "%02x" of one byte: model of libc's snprintf for it */
static int vf_02x(char *d, size_t n, int v)
{
  static const char *const h_ = "0123456789abcdef"; char t[3];
#define HX(x) (char)((x) < 10 ? '0' + (x) : 'a' + (x) - 10)
  t[0] = HX((v >> 4) & 15); t[1] = HX(v & 15); t[2] = 0;
  if (n >= 3) { d[0] = t[0]; d[1] = t[1]; d[2] = 0; } else if (n == 2) { d[0] = t[0]; d[1] = 0; } else if (n == 1) d[0] = 0;
  return 2;
}
#undef snprintf
#define snprintf(d, n, f, ...) vf_02x(d, n, (int)(size_t)(__VA_ARGS__))
#include "utils/strutils.c"
#define RET __CPROVER_return_value
#define HV(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : (c) >= 'A' && (c) <= 'F' ? (c) - 'A' + 10 : 99)
#define N 4
static char hex[2*N + 3]; static unsigned char data[N + 1]; static size_t w_n, w_room; static unsigned char w_old;
#ifdef U_HENC
#define FITS (w_room ? ((w_room - 1)/2 < w_n ? (w_room - 1)/2 : w_n) : 0)
int strhex_encode(char *h, size_t hexsize, const unsigned char *d, size_t size)
__CPROVER_requires(h == hex && d == data && hexsize == w_room && size == w_n && w_n <= N && w_room <= 2*N + 2)
__CPROVER_requires(w_room == 0 || w_room <= sizeof(hex))
__CPROVER_assigns(__CPROVER_object_upto(hex, w_room))
__CPROVER_ensures(RET == (int)(2*w_n))
__CPROVER_ensures(w_room > 0 ==> hex[2*FITS] == 0)
__CPROVER_ensures(g_k < FITS ==> (hex[2*g_k] == HX(data[g_k] >> 4) && hex[2*g_k + 1] == HX(data[g_k] & 15)))
;
void harness(void) { size_t k, n, r; g_k = k; w_n = n; w_room = r; strhex_encode(hex, r, data, n); VF_REACH("hexenc"); }
#endif
#ifdef U_HDEC
static int w_hs; static size_t w_bad;
#define DIG(i) (HV(hex[i]) < 16)
#define UPTO (w_n < (size_t)w_hs/2 ? w_n : (size_t)w_hs/2)
int strhex_decode(unsigned char *d, size_t size, const char *h, int hexsize)
__CPROVER_requires(h == hex && d == data && hexsize == w_hs && size == w_n && w_n <= N && w_hs >= 0 && w_hs <= 2*N)
__CPROVER_assigns(__CPROVER_object_upto(data, w_n))
/* success exactly when the length is even and every digit that is needed is one */
__CPROVER_ensures(RET == -1 || RET == w_hs/2)
__CPROVER_ensures(w_hs % 2 ==> RET == -1)
__CPROVER_ensures(RET >= 0 ==> (w_hs % 2 == 0 && (g_k < UPTO ==> (DIG(2*g_k) && DIG(2*g_k + 1) && data[g_k] == HV(hex[2*g_k])*16 + HV(hex[2*g_k + 1])))))
__CPROVER_ensures((RET == -1 && w_hs % 2 == 0) ==> !(
  (0 >= UPTO || (DIG(0) && DIG(1))) && (1 >= UPTO || (DIG(2) && DIG(3))) && (2 >= UPTO || (DIG(4) && DIG(5))) && (3 >= UPTO || (DIG(6) && DIG(7)))))
;
void harness(void) { size_t k, n; int hs; g_k = k; w_n = n; w_hs = hs; strhex_decode(data, n, hex, hs); VF_REACH("hexdec"); }
#endif
