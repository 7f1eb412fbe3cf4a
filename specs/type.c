/* T01, L01: dlite-type.c */
#include "config.h"
#include "err_stub.h"
#include <stdarg.h>
#include <ctype.h>
#include <limits.h>
size_t g_k, g_pos, *g_P; int *g_I;
/* C locale (trusted stand-ins for libc) */
#undef isalpha
#undef isdigit
#define isalpha(c) vf_isalpha(c)
#define isdigit(c) vf_isdigit(c)
static int vf_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
#ifdef U_TEXT
/* trusted stand-in for snprintf(): literal text and %lu.  Macro, because goto-instrument's frame checks
   do not get along with va_arg(). */
# include "utils/compat.h"
# undef snprintf
# define snprintf(d, n, fmt, ...) vf_snprintf(d, n, fmt, (unsigned long)(0, ##__VA_ARGS__))
int vf_snprintf(char *dst, size_t n, const char *fmt, unsigned long v);
#endif
#include "dlite-type.c"     /* the real file: its static functions and tables are under contract too */
#define RET __CPROVER_return_value
#define PTRSZ 8

/* ---- the property's statement of alignment, written from the platform ABI */
static size_t spec_align(DLiteType t, size_t n)
{
  switch (t) {
  case dliteBlob: case dliteFixString: return 1;
  case dliteBool: return n == 1 ? 1 : 0;
  case dliteInt: case dliteUInt: return (n == 1 || n == 2 || n == 4 || n == 8) ? n : 0;
  case dliteFloat: return (n == 4 || n == 8 || n == 16) ? n : 0;
  case dliteStringPtr: case dliteRef: return n == PTRSZ ? PTRSZ : 0;
  case dliteDimension: return n == sizeof(DLiteDimension) ? PTRSZ : 0;
  case dliteProperty: return n == sizeof(DLiteProperty) ? PTRSZ : 0;
  case dliteRelation: return n == sizeof(DLiteRelation) ? PTRSZ : 0;
  }
  return 0;
}
#ifdef U_ALIGN
size_t dlite_type_get_alignment(DLiteType dtype, size_t size)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation)
__CPROVER_assigns()
__CPROVER_ensures(RET == spec_align(dtype, size))
;
void harness(void) { DLiteType t; size_t n; if (dlite_type_get_alignment(t, n)) VF_REACH("align"); }
#endif
#ifdef USE_ALIGN
size_t dlite_type_get_alignment(DLiteType dtype, size_t size)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation)
__CPROVER_assigns()
__CPROVER_ensures(RET == spec_align(dtype, size))
;
size_t dlite_type_padding_at(DLiteType dtype, size_t size, size_t offset)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation && spec_align(dtype, size) != 0)
__CPROVER_requires(offset <= SIZE_MAX - 16)
__CPROVER_assigns()
__CPROVER_ensures(RET < spec_align(dtype, size) && ((offset + RET) & (spec_align(dtype, size) - 1)) == 0)
;
int dlite_type_get_member_offset(size_t prev_offset, size_t prev_size, DLiteType dtype, size_t size)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation)
__CPROVER_requires(prev_offset <= INT_MAX/2 - 16 && prev_size <= INT_MAX/2)
__CPROVER_assigns()
__CPROVER_ensures(spec_align(dtype, size) == 0 ==> RET == -1)
/* the smallest aligned offset after the previous member */
__CPROVER_ensures(spec_align(dtype, size) != 0 ==> (RET >= 0 && (size_t)RET >= prev_offset + prev_size &&
   (size_t)RET - (prev_offset + prev_size) < spec_align(dtype, size) && ((size_t)RET & (spec_align(dtype, size) - 1)) == 0))
;
void h_pad(void) { DLiteType t; size_t n, o; dlite_type_padding_at(t, n, o); VF_REACH("pad"); }
void h_off(void) { DLiteType t; size_t n, o, p; if (dlite_type_get_member_offset(o, p, t, n) > 0) VF_REACH("off"); }
#endif

#ifdef U_ENUM
static const char *const spec_names[] = {"blob", "bool", "int", "uint", "float", "fixstring", "string", "ref", "dimension", "property", "relation"};
static int spec_streq(const char *a, const char *b)
{ int i = 0; while (i < 16 && a[i] && a[i] == b[i]) i++; return i < 16 && a[i] == b[i]; }
const char *dlite_type_get_dtypename(DLiteType dtype)
__CPROVER_assigns()
__CPROVER_ensures((dtype < dliteBlob || dtype > dliteRelation) ==> RET == NULL)
__CPROVER_ensures((dtype >= dliteBlob && dtype <= dliteRelation) ==> (RET != NULL && spec_streq(RET, spec_names[dtype])))
;
int is_metaref(const char *dtypename) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(RET == 0);
int dlite_type_is_allocated(DLiteType dtype)
__CPROVER_requires(dtype >= dliteBlob && dtype <= dliteRelation)
__CPROVER_assigns()
__CPROVER_ensures((RET != 0) == (dtype >= dliteStringPtr))
;
DLiteType dlite_type_get_dtype(const char *dtypename)
__CPROVER_requires(__CPROVER_is_fresh(dtypename, 12) && dtypename[11] == 0)
__CPROVER_assigns()
__CPROVER_ensures((RET >= dliteBlob && RET <= dliteRelation) ? spec_streq(dtypename, spec_names[RET])
  : ((int)RET == -1 && !spec_streq(dtypename, spec_names[g_k % 11])))
;
void h_name(void) { DLiteType t; if (dlite_type_get_dtypename(t)) VF_REACH("name"); }
void h_alloc(void) { DLiteType t; if (dlite_type_is_allocated(t)) VF_REACH("alloc"); }
void h_dtype(void) { const char *s; size_t k; g_k = k; if (dlite_type_get_dtype(s) == dliteRelation) VF_REACH("dtype"); }
#endif

#ifdef U_TEXT
/* ---- the property's statement of the type-name language: a table of names, and
        blob<n>, string<n>, str<n> with an explicit size. */
typedef struct { const char *n; DLiteType t; size_t s; } Ent;
static const Ent spec_tab[] = { {"bool", dliteBool, 1}, {"int", dliteInt, 8}, {"integer", dliteInt, 8}, {"int8", dliteInt, 1},
  {"int16", dliteInt, 2}, {"int32", dliteInt, 4}, {"int64", dliteInt, 8}, {"uint", dliteUInt, 8}, {"uint8", dliteUInt, 1},
  {"uint16", dliteUInt, 2}, {"uint32", dliteUInt, 4}, {"uint64", dliteUInt, 8}, {"float", dliteFloat, 8}, {"single", dliteFloat, 4},
  {"double", dliteFloat, 8}, {"longdouble", dliteFloat, 16}, {"float32", dliteFloat, 4}, {"float64", dliteFloat, 8},
  {"string", dliteStringPtr, PTRSZ}, {"str", dliteStringPtr, PTRSZ}, {"ref", dliteRef, PTRSZ}, {"dimension", dliteDimension, sizeof(DLiteDimension)},
  {"property", dliteProperty, sizeof(DLiteProperty)}, {"relation", dliteRelation, sizeof(DLiteRelation)} };
#define NTAB (sizeof(spec_tab)/sizeof(*spec_tab))
#ifndef LEN
# define LEN 12
#endif
/* s[0..len) equals the text n */
static int spec_eq(const char *s, size_t len, const char *n)
{ size_t i; for (i = 0; i < LEN; i++) { if (i == len) return n[i] == 0; if (n[i] == 0 || s[i] != n[i]) return 0; } return 0; }
/* 0: not a type name; otherwise 1 and the type and size */
static int spec_type(const char *s, DLiteType *t, size_t *z)
{
  size_t a = 0, d, i, v = 0;
  while (a < LEN && vf_isalpha(s[a])) a++;
  d = a;
  while (d < LEN && vf_isdigit(s[d])) { v = 10*v + (s[d] - '0'); d++; }
  if (a == 0 || vf_isalpha(s[d]) || s[d] == '_') return 0;
  for (i = 0; i < NTAB; i++) if (spec_eq(s, d, spec_tab[i].n)) { *t = spec_tab[i].t; *z = spec_tab[i].s; return 1; }
  if (d == a) return 0;
  if (spec_eq(s, a, "blob")) { *t = dliteBlob; *z = v; return 1; }
  if (spec_eq(s, a, "string") || spec_eq(s, a, "str")) { *t = dliteFixString; *z = v + 1; return 1; }
  return 0;
}
static int spec_ok(const char *s) { DLiteType t; size_t z; return spec_type(s, &t, &z); }
static DLiteType spec_t(const char *s) { DLiteType t = 0; size_t z; spec_type(s, &t, &z); return t; }
static size_t spec_z(const char *s) { DLiteType t; size_t z = 0; spec_type(s, &t, &z); return z; }
/* libc stand-ins (trusted) */
long int strtol(const char *s, char **e, int base)
{ long v = 0; int i = 0; while (i < LEN && vf_isdigit(s[i])) { v = 10*v + (s[i] - '0'); i++; } *e = (char *)s + i; return v; }
int is_metaref(const char *dtypename) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(RET == 0);

int dlite_type_set_dtype_and_size(const char *typename, DLiteType *dtype, size_t *size)
__CPROVER_requires(__CPROVER_is_fresh(typename, LEN+1) && typename[LEN] == 0)
__CPROVER_requires(__CPROVER_is_fresh(dtype, sizeof(*dtype)) && __CPROVER_is_fresh(size, sizeof(*size)))
__CPROVER_assigns(*dtype, *size)
__CPROVER_ensures((RET == 0) == (spec_ok(typename) != 0))
__CPROVER_ensures(RET == 0 ==> (*dtype == spec_t(typename) && *size == spec_z(typename)))
;
void h_parse(void) { const char *s; DLiteType *t; size_t *z; if (dlite_type_set_dtype_and_size(s, t, z) == 0) VF_REACH("parse"); }

int vf_snprintf(char *dst, size_t n, const char *fmt, unsigned long v)
{ /* literal text and %lu */
  size_t k = 0; int i, j, nd; unsigned w; char q[4];
  for (i = 0; i < 16 && fmt[i]; i++) {
    if (fmt[i] != '%') { if (k + 1 < n) dst[k] = fmt[i]; k++; continue; }
    __CPROVER_assert(fmt[i+1] == 'l' && fmt[i+2] == 'u', "only %lu is modelled");
    i += 2;
    __CPROVER_assert(v < 10000, "sizes below 10000");
    w = (unsigned)v; q[0] = '0' + w/1000; q[1] = '0' + w/100%10; q[2] = '0' + w/10%10; q[3] = '0' + w%10;
    nd = w >= 1000 ? 4 : w >= 100 ? 3 : w >= 10 ? 2 : 1;
    for (j = 4 - nd; j < 4; j++) { if (k + 1 < n) dst[k] = q[j]; k++; }
  }
  if (n) dst[k < n ? k : n-1] = 0;
  return (int)k;
}
#ifdef DT
#define VALID(t, n) ((t) == dliteBool ? (n) == 1 : ((t) == dliteInt || (t) == dliteUInt) ? ((n) == 1 || (n) == 2 || (n) == 4 || (n) == 8) : \
  (t) == dliteFloat ? ((n) == 4 || (n) == 8) : (t) == dliteFixString ? (n) >= 1 && (n) < 10000 : (t) == dliteBlob ? (n) < 10000 : \
  ((t) == dliteStringPtr || (t) == dliteRef) ? (n) == PTRSZ : (t) == dliteDimension ? (n) == sizeof(DLiteDimension) : (t) == dliteProperty ? (n) == sizeof(DLiteProperty) : \
  (t) == dliteRelation && (n) == sizeof(DLiteRelation))
int dlite_type_set_typename(DLiteType dtype, size_t size, char *typename, size_t n)
__CPROVER_requires(n == LEN+1 && __CPROVER_is_fresh(typename, n))
__CPROVER_requires(dtype == DT && VALID(dtype, size))
__CPROVER_assigns(__CPROVER_object_upto(typename, n))
/* the name written denotes exactly this type and size */
__CPROVER_ensures(RET == 0 && spec_ok(typename) && spec_t(typename) == dtype && spec_z(typename) == size)
;
void h_write(void) { size_t z; char *s; if (dlite_type_set_typename(DT, z, s, LEN+1) == 0) VF_REACH("write"); }
#endif
#endif
