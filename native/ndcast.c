#include "config.h"
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "dlite.h"
#include "utils/err.h"
/* A02: element k (C order) of the destination gets the cast of element k of the source, nothing else is touched */
static long cell(int nd, const size_t *dims, const int *st, size_t k)
{ long o = 0; for (int i = nd-1; i >= 0; i--) { o += (long)(k % dims[i])*st[i]; k /= dims[i]; } return o; }
/* strides of a random view over a fresh buffer; returns the lowest and highest byte */
static void view(int nd, const size_t *dims, size_t sz, int *st, long *lo, long *hi)
{
  int perm[4], i, j, t; size_t cur = sz*(1 + (vf_choice(3) == 0)), n = 1;
  for (i = 0; i < nd; i++) perm[i] = i;
  if (vf_choice(3)) for (i = 0; i < nd; i++) { j = vf_choice(nd); t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  for (i = nd-1; i >= 0; i--) { st[perm[i]] = (int)cur*(vf_choice(4) ? 1 : -1); cur *= dims[perm[i]] + (vf_choice(4) == 0); if (!cur) cur = sz; }
  *lo = 0; *hi = sz;
  for (i = 0; i < nd; i++) n *= dims[i];
  for (size_t k = 0; k < n; k++) { long o = cell(nd, dims, st, k); if (o < *lo) *lo = o; if (o + (long)sz > *hi) *hi = o + sz; }
}
static void put(char *p, DLiteType t, size_t z, long v)
{
  if (t == dliteFloat) { if (z == 4) { float x = v; memcpy(p, &x, 4); } else { double x = v; memcpy(p, &x, 8); } }
  else if (z == 1) { int8_t x = v; memcpy(p, &x, 1); } else if (z == 2) { int16_t x = v; memcpy(p, &x, 2); }
  else if (z == 4) { int32_t x = v; memcpy(p, &x, 4); } else { int64_t x = v; memcpy(p, &x, 8); }
}
static int calls;
static int failat = -1;
static int cast(void *d, DLiteType dt, size_t dz, const void *s, DLiteType st, size_t sz) { if (calls++ == failat) return -1; return dlite_type_copy_cast(d, dt, dz, s, st, sz); }
static void body_nd(void)
{
  static const struct { DLiteType t; size_t z; } ty[] = { {dliteInt, 1}, {dliteInt, 4}, {dliteInt, 8}, {dliteFloat, 4}, {dliteFloat, 8}, {dliteUInt, 2} };
  int nd = vf_choice(4), i, sst[4], dst[4], defs, defd, r, same = vf_bool(), custom = vf_bool(); size_t sd[4], dd[4], n = 1, k, a = vf_choice(6), b = same ? a : vf_choice(6);
  long slo, shi, dlo, dhi;
  err_set_stream(NULL);
  for (i = 0; i < nd; i++) { sd[i] = dd[i] = vf_choice(5) ? 1 + vf_choice(3) : vf_choice(4); n *= sd[i]; }
  if (nd > 1 && vf_choice(4) == 0) { for (i = 0; i < nd; i++) dd[i] = sd[nd-1-i]; }     /* same number of elements */
  defs = vf_bool(); defd = vf_bool();
  if (defs) { size_t c = ty[a].z; for (i = nd-1; i >= 0; i--) { sst[i] = c; c *= sd[i]; } slo = 0; shi = n*ty[a].z; if (nd == 0) shi = ty[a].z; }
  else view(nd, sd, ty[a].z, sst, &slo, &shi);
  if (defd) { size_t c = ty[b].z; for (i = nd-1; i >= 0; i--) { dst[i] = c; c *= dd[i]; } dlo = 0; dhi = n*ty[b].z; if (nd == 0) dhi = ty[b].z; }
  else view(nd, dd, ty[b].z, dst, &dlo, &dhi);
  char *S = vf_alloc(shi - slo), *D = vf_alloc(dhi - dlo), *S0 = vf_alloc(shi - slo), *E = vf_alloc(dhi - dlo);
  memset(S, 0x5b, shi - slo); memset(D, 0x37, dhi - dlo);
  for (k = 0; k < n; k++) put(S - slo + cell(nd, sd, sst, k), ty[a].t, ty[a].z, (long)((k*7 + 3) % 100));
  memcpy(S0, S, shi - slo); memcpy(E, D, dhi - dlo);
  for (k = 0; k < n; k++) put(E - dlo + cell(nd, dd, dst, k), ty[b].t, ty[b].z, (long)((k*7 + 3) % 100));
  int bad = nd && n && vf_choice(6) == 0; size_t keep = 0; int w = 0;
  if (bad) { w = vf_choice(nd); keep = dd[w]; dd[w] = vf_bool() ? keep + 1 : keep - 1; memset(E, 0x37, dhi - dlo); }
  calls = 0; failat = !bad && n && vf_choice(8) == 0 ? (int)vf_choice(n) : -1; if (failat >= 0) custom = 1;
  r = dlite_type_ndcast(nd, D - dlo, ty[b].t, ty[b].z, nd ? dd : NULL, defd && !bad ? NULL : dst, S - slo, ty[a].t, ty[a].z, nd ? sd : NULL, defs ? NULL : sst, custom ? cast : NULL);
  if (failat >= 0 && calls) { VF_CHECK(r != 0, "the cast of element %d failed, but success is reported", failat); return; }
  VF_CHECK(bad ? r != 0 : r == 0, bad ? "arrays with different numbers of elements were accepted" : "cast failed");
  VF_CHECK(memcmp(S, S0, shi - slo) == 0, "the source was changed");
  for (k = 0; k < (size_t)(dhi - dlo); k++) VF_CHECK(D[k] == E[k], "destination byte %ld is %02x, expected %02x (%d dims, %zu elements, type %d:%zu to %d:%zu)", (long)k + dlo, (unsigned char)D[k], (unsigned char)E[k], nd, n, ty[a].t, ty[a].z, ty[b].t, ty[b].z);
}
/* strings: deep copies */
static void body_str(void)
{
  int nd = 1 + vf_choice(2), i; size_t d[2], n = 1, k; char **S, **D; int r;
  err_set_stream(NULL);
  for (i = 0; i < nd; i++) { d[i] = 1 + vf_choice(3); n *= d[i]; }
  S = vf_alloc(n*sizeof(char *)); D = vf_alloc(n*sizeof(char *));
  for (k = 0; k < n; k++) { char b[4]; vf_str(b, vf_choice(4), "ab "); S[k] = strdup(b); D[k] = vf_bool() ? strdup("old") : NULL; }
  int ds[2], ss[2], flip = nd == 2 && vf_bool();
  ss[nd-1] = ds[nd-1] = sizeof(char *); if (nd == 2) { ss[0] = ds[0] = d[1]*sizeof(char *); }
  if (flip) { ds[0] = sizeof(char *); ds[1] = d[0]*sizeof(char *); }
  r = dlite_type_ndcast(nd, D, dliteStringPtr, sizeof(char *), d, ds, S, dliteStringPtr, sizeof(char *), d, ss, NULL);
    VF_CHECK(r == 0, "string cast failed");
    for (k = 0; k < n; k++) { char *q = D[cell(nd, d, ds, k)/sizeof(char *)]; VF_CHECK(q != S[k] && !strcmp(q, S[k]), "string %zu is \"%s\", expected a copy of \"%s\"", k, q, S[k]); }
  for (k = 0; k < n; k++) { free(S[k]); free(D[k]); }
}
VfBody vf_bodies[] = { {"nd", body_nd, 0}, {"str", body_str, 0}, {NULL} };
