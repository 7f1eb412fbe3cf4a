#include "config.h"
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "dlite.h"
#include "utils/err.h"
typedef struct { const char *n; DLiteType t; size_t s; } Ent;
static const Ent tab[] = { {"bool", dliteBool, sizeof(bool)}, {"int", dliteInt, 8}, {"integer", dliteInt, 8}, {"int8", dliteInt, 1},
  {"int16", dliteInt, 2}, {"int32", dliteInt, 4}, {"int64", dliteInt, 8}, {"uint", dliteUInt, 8}, {"uint8", dliteUInt, 1},
  {"uint16", dliteUInt, 2}, {"uint32", dliteUInt, 4}, {"uint64", dliteUInt, 8}, {"float", dliteFloat, 8}, {"single", dliteFloat, 4},
  {"double", dliteFloat, 8}, {"longdouble", dliteFloat, sizeof(long double)}, {"float32", dliteFloat, 4}, {"float64", dliteFloat, 8},
  {"string", dliteStringPtr, sizeof(char *)}, {"str", dliteStringPtr, sizeof(char *)}, {"ref", dliteRef, sizeof(void *)}, {"dimension", dliteDimension, sizeof(DLiteDimension)},
  {"property", dliteProperty, sizeof(DLiteProperty)}, {"relation", dliteRelation, sizeof(DLiteRelation)} };
#define NTAB (sizeof(tab)/sizeof(*tab))
static int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int dig(int c) { return c >= '0' && c <= '9'; }
static int ref_type(const char *s, DLiteType *t, size_t *z)
{
  size_t a = 0, d, i, v = 0;
  if ((!strncmp(s, "http://", 7) || !strncmp(s, "https://", 8) || !strncmp(s, "ftp://", 6))) { *t = dliteRef; *z = sizeof(void *); return 1; }
  while (alpha(s[a])) a++;
  for (d = a; dig(s[d]); d++) v = 10*v + (s[d] - '0');
  if (!a || alpha(s[d]) || s[d] == '_') return 0;
  for (i = 0; i < NTAB; i++) if (strlen(tab[i].n) == d && !strncmp(s, tab[i].n, d)) { *t = tab[i].t; *z = tab[i].s; return 1; }
  if (d == a) return 0;
  if (a == 4 && !strncmp(s, "blob", 4)) { *t = dliteBlob; *z = v; return 1; }
  if ((a == 6 && !strncmp(s, "string", 6)) || (a == 3 && !strncmp(s, "str", 3))) { *t = dliteFixString; *z = v + 1; return 1; }
  return 0;
}
static void check(const char *s)
{
  DLiteType t = 77, rt = 0; size_t z = 12345, rz = 0; int ok, r;
  err_set_stream(NULL);
  ok = ref_type(s, &rt, &rz);
  r = dlite_type_set_dtype_and_size(s, &t, &z);
  if (!ok) VF_CHECK(r != 0 && (int)t == 77 && z == 12345, "\"%s\" is accepted as type %d of size %zu (%d)", s, t, z, r);
  else VF_CHECK(r == 0 && t == rt && z == rz, "\"%s\" is read as type %d of size %zu (%d), expected %d, %zu", s, t, z, r, rt, rz);
  VF_CHECK(dlite_is_type(s) == (ok != 0), "dlite_is_type(\"%s\") is %d", s, dlite_is_type(s));
}
static void body_short(void) { char b[8]; size_t n = vf_choice(4); vf_str(b, n, "abdgilnorstuSX0189_ ,["); check(vf_dup(b, n)); }
static void body_mutant(void)
{
  static const char *const extra[] = {"blob7", "string12", "str5", "blob0", "string0", "blob", "fixstring", "uint128", "http://x/0.1/y", "float16"};
  char b[40]; size_t k = vf_choice(NTAB + 10), n, m;
  strcpy(b, k < NTAB ? tab[k].n : extra[k - NTAB]); n = strlen(b);
  if (k != NTAB + 8)
  for (m = vf_choice(3); m; m--)
    switch (vf_choice(4)) {
    case 0: n = vf_choice(n + 1); break;
    case 1: if (n < 20) b[n++] = "0123468sS_ ,]"[vf_choice(13)]; break;
    case 2: if (n) b[vf_choice(n)] = "abdefgilnorstu0123468_"[vf_choice(22)]; break;
    case 3: if (n) { memmove(b, b+1, n-1); n--; } break;
    }
  check(vf_dup(b, n));
}
static void body_roundtrip(void)
{
  static const Ent v[] = { {"", dliteBool, sizeof(bool)}, {"", dliteInt, 1}, {"", dliteInt, 2}, {"", dliteInt, 4}, {"", dliteInt, 8}, {"", dliteUInt, 1}, {"", dliteUInt, 2},
    {"", dliteUInt, 4}, {"", dliteUInt, 8}, {"", dliteFloat, 4}, {"", dliteFloat, 8}, {"", dliteStringPtr, sizeof(char *)}, {"", dliteRef, sizeof(void *)},
    {"", dliteDimension, sizeof(DLiteDimension)}, {"", dliteProperty, sizeof(DLiteProperty)}, {"", dliteRelation, sizeof(DLiteRelation)}, {"", dliteBlob, 0}, {"", dliteFixString, 0} };
  size_t k = vf_choice(18), z = v[k].s, z2 = 0, room; DLiteType t2 = 99; char *b, *c; int r;
  static const size_t sizes[] = {1, 2, 3, 9, 10, 11, 64, 99, 100, 1000, 65535, 65536, 999999, 2147483647, 2147483648ull, 4294967296ull, 99999999999ull};
  err_set_stream(NULL);
  if (k >= 16) z = sizes[vf_choice(17)];
  b = vf_alloc(32);
  VF_CHECK(dlite_type_set_typename(v[k].t, z, b, 32) == 0, "no name for type %d of size %zu", v[k].t, z);
  VF_CHECK(dlite_type_set_dtype_and_size(b, &t2, &z2) == 0 && t2 == v[k].t && z2 == z, "type %d of size %zu is named \"%s\", which is read as type %d of size %zu", v[k].t, z, b, t2, z2);
  room = vf_choice(20); c = vf_alloc(room);
  r = dlite_type_set_typename(v[k].t, z, c, room);   /* ASan: never beyond the buffer */
  if (r == 0 && room) VF_CHECK(strlen(c) < room && !strncmp(c, b, strlen(c)), "truncated name");
  VF_CHECK(dlite_type_is_allocated(v[k].t) == (v[k].t >= dliteStringPtr), "is_allocated");
}
static void body_enum(void)
{
  static const char *const names[] = {"blob", "bool", "int", "uint", "float", "fixstring", "string", "ref", "dimension", "property", "relation"};
  static const char *const enames[] = {"dliteBlob", "dliteBool", "dliteInt", "dliteUInt", "dliteFloat", "dliteFixString", "dliteStringPtr", "dliteRef", "dliteDimension", "dliteProperty", "dliteRelation"};
  int k = (int)vf_choice(13) - 1;
  err_set_stream(NULL);
  if (k < 0 || k > 10) { VF_CHECK(dlite_type_get_dtypename(k) == NULL && dlite_type_get_enum_name(k) == NULL, "a name for type number %d", k); return; }
  VF_CHECK(!strcmp(dlite_type_get_dtypename(k), names[k]), "name of type %d is %s", k, dlite_type_get_dtypename(k));
  VF_CHECK(!strcmp(dlite_type_get_enum_name(k), enames[k]), "enum name of type %d is %s", k, dlite_type_get_enum_name(k));
  VF_CHECK(dlite_type_get_dtype(names[k]) == (DLiteType)k, "type of name %s", names[k]);
  char *s = vf_dup(names[k], strlen(names[k]) - 1);
  VF_CHECK((int)dlite_type_get_dtype(s) == -1, "\"%s\" is accepted as a type", s);
}
VfBody vf_bodies[] = { {"enum", body_enum, 1}, {"short", body_short, 1}, {"roundtrip", body_roundtrip, 1}, {"mutant", body_mutant, 0}, {NULL} };
