/* vf_printf.h -- executable model of C's vsnprintf for the conversions the code under contract uses
 * (%d %i %u %x %X %c %s %% with flags, width, precision, '*' and length modifiers).  CBMC has no body
 * for the printf family; this one interprets the very format string of the code, so a changed format
 * is a changed result.  An unknown conversion fails an assertion: the model never guesses. */
#ifndef VF_PRINTF_H
#define VF_PRINTF_H
#include <stdarg.h>
#include <stddef.h>
#ifndef VF_PRINTF_MAXS
# define VF_PRINTF_MAXS 64
#endif
static int vf_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
  size_t k = 0;
#define VF_PUT(c) do { if (k + 1 < n) d[k] = (char)(c); k++; } while (0)
  while (*f) {
    if (*f != '%') { VF_PUT(*f); f++; continue; }
    f++;
    int zero = 0, left = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (; *f == '0' || *f == '-' || *f == '+'; f++) if (*f == '0') zero = 1; else if (*f == '-') left = 1; else plus = 1;
    if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
    else while (*f >= '0' && *f <= '9') { width = width*10 + (*f - '0'); f++; }
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (*f >= '0' && *f <= '9') { prec = prec*10 + (*f - '0'); f++; }
    }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; f++; }
    while (*f == 'h') { lng--; f++; }
    char t[24]; int nt = 0; const char *s = t; int sl = 0;
    if (*f == 's') {
      s = va_arg(ap, char *);
      while ((prec < 0 || sl < prec) && s[sl]) { sl++; __CPROVER_assert(sl <= VF_PRINTF_MAXS, "bound of the printf model"); }
      zero = 0;
    } else if (*f == 'c') { t[0] = (char)va_arg(ap, int); sl = 1; zero = 0; }
    else if (*f == '%') { t[0] = '%'; sl = 1; }
    else {
      unsigned long v; int neg = 0, base = 10, up = 0, i;
      if (*f == 'd' || *f == 'i') {
        long x;
        if (lng > 0) x = va_arg(ap, long); else x = va_arg(ap, int);
        if (lng == -1) x = (short)x; else if (lng <= -2) x = (signed char)x;
        neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x;
      } else {
        __CPROVER_assert(*f == 'u' || *f == 'x' || *f == 'X', "conversion known to the printf model");
        if (*f != 'u') base = 16;
        up = *f == 'X';
        if (lng > 0) v = va_arg(ap, unsigned long); else v = va_arg(ap, unsigned);
        if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v;
      }
      if (prec >= 0) zero = 0;
      char r[22]; int nr = 0;
      if (base == 16 && prec > 0 && prec <= 16) {   /* fixed number of digits: keeps the position concrete */
        __CPROVER_assert(prec == 16 || !(v >> 4*prec), "value within the domain of the printf model");
        for (i = 0; i < prec; i++) { int q = (int)((v >> 4*i) & 15); r[nr++] = (char)(q < 10 ? '0' + q : (up ? 'A' : 'a') + q - 10); }
        v = 0;
      } else
      if (!v && prec != 0) r[nr++] = '0';
      while (v && nr < 20) { int q = base == 16 ? (int)(v & 15) : (int)(v % 10); r[nr++] = (char)(q < 10 ? '0' + q : (up ? 'A' : 'a') + q - 10); v = base == 16 ? v >> 4 : v / 10; }
      while (nr < prec && nr < 21) r[nr++] = '0';
      if (zero && !left) while (nr + (neg || plus) < width && nr < 21) r[nr++] = '0';
      if (neg) r[nr++] = '-'; else if (plus && base == 10 && *f != 'u') r[nr++] = '+';
      for (i = 0; i < nr; i++) t[i] = r[nr - 1 - i];
      sl = nr;
    }
    (void)nt;
    if (!left) { int i; for (i = sl; i < width; i++) VF_PUT(' '); }
    { int i; for (i = 0; i < sl; i++) VF_PUT(s[i]); }
    if (left) { int i; for (i = sl; i < width; i++) VF_PUT(' '); }
    f++;
  }
  if (n) d[k < n ? k : n - 1] = 0;
  return (int)k;
}
static int vf_snprintf(char *d, size_t n, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vsnprintf(d, n, f, ap); va_end(ap); return r; }
static int vf_sprintf(char *d, const char *f, ...)
{ va_list ap; int r; va_start(ap, f); r = vf_vsnprintf(d, (size_t)1 << 30, f, ap); va_end(ap); return r; }
/* sscanf for %[width][h|l]x, %n and literal characters */
static int vf_sscanf(const char *s, const char *f, ...)
{
  va_list ap; int got = 0, p = 0;
  va_start(ap, f);
  while (*f) {
    if (*f != '%') { if (s[p] != *f) break; p++; f++; continue; }
    f++;
    int w = 0, h = 0, l = 0, k = 0; unsigned long v = 0;
    while (*f >= '0' && *f <= '9') { w = w*10 + (*f - '0'); f++; }
    while (*f == 'h') { h++; f++; }
    while (*f == 'l') { l++; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = p; f++; continue; }
    __CPROVER_assert((*f == 'x' || *f == 'X') && w > 0, "conversion known to the scanf model");
    /* domain of the model: the text has digits here (blanks, signs and 0x are not modelled) */
    while (k < w) {
      char c = s[p]; int q;
      if (c >= '0' && c <= '9') q = c - '0'; else if (c >= 'a' && c <= 'f') q = c - 'a' + 10; else if (c >= 'A' && c <= 'F') q = c - 'A' + 10; else break;
      v = v*16 + q; p++; k++;
    }
    __CPROVER_assert(k > 0 && (k == w || (s[p] != 'x' && s[p] != 'X')), "text within the domain of the scanf model");
    if (h == 2) *va_arg(ap, unsigned char *) = (unsigned char)v;
    else if (h) *va_arg(ap, unsigned short *) = (unsigned short)v;
    else if (l) *va_arg(ap, unsigned long *) = v;
    else *va_arg(ap, unsigned *) = (unsigned)v;
    got++; f++;
  }
  va_end(ap);
  return got;
}
#undef sscanf
#define sscanf vf_sscanf
#undef snprintf
#undef sprintf
#undef vsnprintf
/* cbmc does not promote variadic arguments: (x) + 0 does */
#define VF_P(x) ((x) + 0)
#define VF_A0()
#define VF_A1(a) , VF_P(a)
#define VF_A2(a, ...) , VF_P(a) VF_A1(__VA_ARGS__)
#define VF_A3(a, ...) , VF_P(a) VF_A2(__VA_ARGS__)
#define VF_A4(a, ...) , VF_P(a) VF_A3(__VA_ARGS__)
#define VF_A5(a, ...) , VF_P(a) VF_A4(__VA_ARGS__)
#define VF_A6(a, ...) , VF_P(a) VF_A5(__VA_ARGS__)
#define VF_A7(a, ...) , VF_P(a) VF_A6(__VA_ARGS__)
#define VF_A8(a, ...) , VF_P(a) VF_A7(__VA_ARGS__)
#define VF_AN(_0, _1, _2, _3, _4, _5, _6, _7, _8, N, ...) VF_A##N
#define VF_ARGS(...) VF_AN(0, ##__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)(__VA_ARGS__)
#define snprintf(d, n, f, ...) vf_snprintf(d, n, f VF_ARGS(__VA_ARGS__))
#define sprintf(d, f, ...) vf_sprintf(d, f VF_ARGS(__VA_ARGS__))
#define vsnprintf vf_vsnprintf
#endif
