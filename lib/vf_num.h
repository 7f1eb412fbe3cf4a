/* vf_num.h -- model of libc's decimal conversions between numbers and text.
 * Printing a number writes a one-character token ('0' + k for the k-th number) and records the value, its C type and
 * the precision; reading a token gives the value libc guarantees to get back: an integer converted as strtol/strtoul do,
 * a floating-point number unchanged if it was printed with at least FLT/DBL_DECIMAL_DIG digits and an arbitrary (but
 * always the same) value otherwise.  The model interprets the code's own format strings and checks that each conversion
 * fits the C type of its argument, so a wrong format, length modifier or precision shows. */
#ifndef VF_NUM_H
#define VF_NUM_H
#include <stddef.h>
typedef struct { int kind, size; long i; unsigned long u; double d; const char *s; } VfArg;  /* kind: 'i' 'u' 'd' 's' */
static VfArg vf_mk(int kind, int size, long i, unsigned long u, double d, const char *s) { VfArg a; a.kind = kind; a.size = size; a.i = i; a.u = u; a.d = d; a.s = s; return a; }
static VfArg vf_i1(signed char x) { return vf_mk('i', 1, x, 0, 0, 0); }
static VfArg vf_c1(char x) { return vf_mk('i', 1, x, 0, 0, 0); }
static VfArg vf_i2(short x) { return vf_mk('i', 2, x, 0, 0, 0); }
static VfArg vf_i4(int x) { return vf_mk('i', 4, x, 0, 0, 0); }
static VfArg vf_i8(long x) { return vf_mk('i', 8, x, 0, 0, 0); }
static VfArg vf_u1(unsigned char x) { return vf_mk('u', 1, 0, x, 0, 0); }
static VfArg vf_u2(unsigned short x) { return vf_mk('u', 2, 0, x, 0, 0); }
static VfArg vf_u4(unsigned x) { return vf_mk('u', 4, 0, x, 0, 0); }
static VfArg vf_u8_(unsigned long x) { return vf_mk('u', 8, 0, x, 0, 0); }
static VfArg vf_f4(float x) { return vf_mk('d', 4, 0, 0, x, 0); }
static VfArg vf_f8(double x) { return vf_mk('d', 8, 0, 0, x, 0); }
static VfArg vf_f16(long double x) { return vf_mk('d', 16, 0, 0, (double)x, 0); }
static VfArg vf_s(const char *x) { return vf_mk('s', 8, 0, 0, 0, x); }
#define VF_A(x) _Generic((x), signed char: vf_i1, char: vf_c1, short: vf_i2, int: vf_i4, long: vf_i8, long long: vf_i8, \
  unsigned char: vf_u1, unsigned short: vf_u2, unsigned: vf_u4, unsigned long: vf_u8_, unsigned long long: vf_u8_, _Bool: vf_u1, \
  float: vf_f4, double: vf_f8, long double: vf_f16, default: vf_s)(x)
/* numbers printed so far */
#define VF_NTOK 10
static struct { int kind, size, prec; long i; unsigned long u; double d; } vf_tok[VF_NTOK]; static int vf_ntok;
double __CPROVER_uninterpreted_rt8(double, int); float __CPROVER_uninterpreted_rt4(float, int);
static int vf_nsnprintf(char *d, size_t n, const char *f, const VfArg *a)
{
  size_t k = 0; int na = 0;
#define VFN_PUT(c) do { if (k + 1 < n) d[k] = (char)(c); k++; } while (0)
  while (*f) {
    if (*f != '%') { VFN_PUT(*f); f++; continue; }
    f++;
    int zero = 0, width = 0, prec = -1, h = 0, l = 0, L = 0, w;
    if (*f == '0') { zero = 1; f++; }
    if (*f == '*') { __CPROVER_assert(a[na].kind == 'i' && a[na].size == 4, "width is an int"); width = (int)a[na++].i; f++; }
    else while (*f >= '0' && *f <= '9') { width = width*10 + (*f - '0'); f++; }
    if (*f == '.') { f++; prec = 0; if (*f == '*') { __CPROVER_assert(a[na].kind == 'i' && a[na].size == 4, "precision is an int"); prec = (int)a[na++].i; f++; } else while (*f >= '0' && *f <= '9') { prec = prec*10 + (*f - '0'); f++; } }
    for (; *f == 'h' || *f == 'l' || *f == 'L' || *f == 'z'; f++) if (*f == 'h') h++; else if (*f == 'L') L = 1; else l++;
    const VfArg *x = &a[na++];
    int isize = h >= 2 ? 1 : h == 1 ? 2 : l ? 8 : 4;
    if (*f == 's') {
      int q = 0; __CPROVER_assert(x->kind == 's', "%s prints a string"); __CPROVER_assert(width <= 0, "no padding in the model");
      while ((prec < 0 || q < prec) && x->s[q]) { VFN_PUT(x->s[q]); q++; }
    } else if (*f == 'x') {
      __CPROVER_assert(x->kind != 's' && x->kind != 'd' && zero && width == 2 && prec < 0 && x->size <= 4, "only %02x of a byte is modelled");
      unsigned v = x->kind == 'i' ? (unsigned)x->i : (unsigned)x->u; __CPROVER_assert(v < 256, "only %02x of a byte is modelled");
      VFN_PUT(v/16 < 10 ? '0' + v/16 : 'a' + v/16 - 10); VFN_PUT(v%16 < 10 ? '0' + v%16 : 'a' + v%16 - 10);
    } else {
      __CPROVER_assert(width <= 0, "no padding in the model");
      __CPROVER_assert(vf_ntok < VF_NTOK, "bound of the number model");
      int t = vf_ntok;
      if (*f == 'd' || *f == 'i') {
        __CPROVER_assert(prec < 0, "no leading zeros in the model");
        __CPROVER_assert(x->kind == 'i' || x->kind == 'u', "an integer for %d"); __CPROVER_assert(x->size == 8 ? isize == 8 : isize < 8, "length modifier of %d");
        long v = x->kind == 'i' ? x->i : (long)x->u; if (isize == 1) v = (signed char)v; else if (isize == 2) v = (short)v; else if (isize == 4) v = (int)v;
        vf_tok[t].kind = 'i'; vf_tok[t].i = v;
      } else if (*f == 'u') {
        __CPROVER_assert(prec < 0, "no leading zeros in the model");
        __CPROVER_assert(x->kind == 'i' || x->kind == 'u', "an integer for %u"); __CPROVER_assert(x->size == 8 ? isize == 8 : isize < 8, "length modifier of %u");
        unsigned long v = x->kind == 'i' ? (unsigned long)x->i : x->u; if (isize == 1) v = (unsigned char)v; else if (isize == 2) v = (unsigned short)v; else if (isize == 4) v = (unsigned)v;
        vf_tok[t].kind = 'u'; vf_tok[t].u = v;
      } else {
        __CPROVER_assert(*f == 'g', "conversion known to the model"); __CPROVER_assert(x->kind == 'd' && (x->size == 16) == L, "a floating-point number of this size for %g");
        vf_tok[t].kind = 'd'; vf_tok[t].d = x->d; vf_tok[t].size = x->size; vf_tok[t].prec = prec < 0 ? 6 : prec;
      }
      vf_ntok++; VFN_PUT('0' + t);
    }
    f++;
  }
  if (n) d[k < n ? k : n - 1] = 0;
  return (int)k;
}
static int vf_token(const char *s, int *p) { while (s[*p] == ' ' || s[*p] == '\n' || s[*p] == '\t') ++*p; int t = s[*p] - '0'; if (t < 0 || t > 9) return -1; ++*p; __CPROVER_assert(t < vf_ntok, "a number that was printed"); return t; }
static double vf_tod(int t) { if (vf_tok[t].kind == 'i') return (double)vf_tok[t].i; if (vf_tok[t].kind == 'u') return (double)vf_tok[t].u; return vf_tok[t].size == 8 ? vf_tok[t].prec >= 17 ? vf_tok[t].d : __CPROVER_uninterpreted_rt8(vf_tok[t].d, vf_tok[t].prec) : vf_tok[t].prec >= 150 ? vf_tok[t].d : __CPROVER_uninterpreted_rt8(vf_tok[t].d, vf_tok[t].prec); }
static float vf_tof(int t) { if (vf_tok[t].kind == 'i') return (float)vf_tok[t].i; if (vf_tok[t].kind == 'u') return (float)vf_tok[t].u; return vf_tok[t].size == 4 && vf_tok[t].prec >= 9 ? (float)vf_tok[t].d : __CPROVER_uninterpreted_rt4((float)vf_tok[t].d, vf_tok[t].prec); }
static double vf_strtod(const char *s, char **e) { int p = 0, t = vf_token(s, &p); __CPROVER_assert(t >= 0 && !e, "text within the domain of the model"); double r = vf_tod(t); vf_ntok = t; return r; }  /* scratch print: the token is given back */
static float vf_strtof(const char *s, char **e) { int p = 0, t = vf_token(s, &p); __CPROVER_assert(t >= 0 && !e, "text within the domain of the model"); float r = vf_tof(t); vf_ntok = t; return r; }
/* sscanf(s, "%<conversion>%n", p, m) or "%2x" */
static int vf_nsscanf(const char *s, const char *f, void *q, int *m)
{
  int w = 0, h = 0, l = 0, L = 0, p = 0;
  __CPROVER_assert(*f == '%', "format known to the scanf model"); f++;
  while (*f >= '0' && *f <= '9') { w = w*10 + (*f - '0'); f++; }
  for (; *f == 'h' || *f == 'l' || *f == 'L'; f++) if (*f == 'h') h++; else if (*f == 'L') L = 1; else l++;
  if (*f == 'x') {
    unsigned v = 0; int k;
    __CPROVER_assert(w == 2 && !h && !l && !f[1], "only %2x is modelled");
    for (k = 0; k < 2; k++) { char c = s[k]; int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; __CPROVER_assert(x < 16, "hexadecimal digits"); v = v*16 + x; }
    *(unsigned *)q = v; return 1;
  }
  __CPROVER_assert(f[1] == '%' && f[2] == 'n' && !f[3] && w == 0, "format known to the scanf model");
  int t = vf_token(s, &p);
  if (t < 0) return 0;
  if (*f == 'i' || *f == 'd' || *f == 'u') {
    unsigned long v;
    if (vf_tok[t].kind == 'd') return 0;
    if (*f != 'u') v = vf_tok[t].kind == 'i' ? (unsigned long)vf_tok[t].i : vf_tok[t].u > 0x7fffffffffffffffUL ? 0x7fffffffffffffffUL : vf_tok[t].u;
    else v = vf_tok[t].kind == 'i' ? (unsigned long)vf_tok[t].i : vf_tok[t].u;
    if (h >= 2) *(unsigned char *)q = (unsigned char)v; else if (h) *(unsigned short *)q = (unsigned short)v; else if (l) *(unsigned long *)q = v; else *(unsigned *)q = (unsigned)v;
  } else { __CPROVER_assert(*f == 'f' || *f == 'g' || *f == 'e', "conversion known to the scanf model"); if (L) *(long double *)q = vf_tod(t); else if (l) *(double *)q = vf_tod(t); else *(float *)q = vf_tof(t); }
  *m = p;
  return 1;
}
#undef snprintf
#undef sscanf
#undef strtod
#undef strtof
#define VF_E0(...) VF_A(0)
#define VF_E1(a) VF_A(a)
#define VF_E2(a, b) VF_A(a), VF_A(b)
#define VF_E3(a, b, c) VF_A(a), VF_A(b), VF_A(c)
#define VF_E4(a, b, c, e) VF_A(a), VF_A(b), VF_A(c), VF_A(e)
#define VF_E5(a, b, c, e, g) VF_A(a), VF_A(b), VF_A(c), VF_A(e), VF_A(g)
#define VF_EN(_0, _1, _2, _3, _4, _5, N, ...) VF_E##N
#define snprintf(d, n, f, ...) vf_nsnprintf(d, n, f, (VfArg[]){VF_EN(0, ##__VA_ARGS__, 5, 4, 3, 2, 1, 0)(__VA_ARGS__)})
static void *vf_nop_;
#define VF_S1(q) (q), &vf_nop_m
#define VF_S2(q, m) (q), (m)
#define VF_SN(_1, _2, N, ...) VF_S##N
static int vf_nop_m;
#define sscanf(s, f, ...) vf_nsscanf(s, f, VF_SN(__VA_ARGS__, 2, 1)(__VA_ARGS__))
#define strtod vf_strtod
#define strtof vf_strtof
#endif
