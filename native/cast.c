#include "vf.h"
#include <string.h>
#include <math.h>
#include "dlite.h"
#include "dlite-type.h"
#include "dlite-type-cast.h"
#include "utils/err.h"
typedef __int128 I;
static const DLiteType T[] = {dliteBool, dliteInt, dliteUInt, dliteFloat};
static const char *N[] = {"bool", "int", "uint", "float"};
static size_t size_of(int t) { return t == 0 ? 1 : t == 3 ? (4u << vf_choice(2)) : (1u << vf_choice(4)); }
static const double F[] = {0, -0.0, 1, -1, 0.5, -0.5, 1.5, 127, 128, 255, 256, 300.25, -128, -129, 32767, 65535, 65536, 2147483647.0,
  4294967295.0, 4294967296.0, 1e10, -1e10, 9007199254740993.0, 1e18, 1.8e19, -9e18, 1e300, 1e-300, 3.4e38, INFINITY, -INFINITY, NAN};

static void numeric(void)
{
  err_set_stream(NULL);
  int ts = vf_choice(4), td = vf_choice(4);
  size_t ns = size_of(ts), nd = size_of(td);
  unsigned char *s = vf_alloc(ns), *d = vf_alloc(nd), keep[8];
  I iv = 0; double fv = 0;
  uint64_t u;
  memset(d, 0xA5, nd);
  switch (ts) {
  case 0: u = vf_choice(2); *s = (unsigned char)u; iv = u; break;
  case 1: u = vf_u64(); memcpy(s, &u, ns); iv = ns == 1 ? (int8_t)u : ns == 2 ? (int16_t)u : ns == 4 ? (int32_t)u : (int64_t)u; break;
  case 2: u = vf_u64(); memcpy(s, &u, ns); iv = ns == 1 ? (uint8_t)u : ns == 2 ? (uint16_t)u : ns == 4 ? (uint32_t)u : u; break;
  case 3: {
    if (vf_choice(3)) fv = F[vf_choice(sizeof(F)/sizeof(*F))];
    else { u = vf_u64(); memcpy(&fv, &u, 8); }
    if (ns == 4) { float f = (float)fv; memcpy(s, &f, 4); fv = f; } else memcpy(s, &fv, 8);
  } }
  memcpy(keep, s, ns);
  int r = dlite_type_copy_cast(d, T[td], nd, s, T[ts], ns);
  VF_CHECK(memcmp(keep, s, ns) == 0, "%s%zu -> %s%zu modified its source", N[ts], 8*ns, N[td], 8*nd);
  if (ts == 3) {
    if (td == 2 && fv < 0) { VF_CHECK(r != 0, "negative %g cast to uint%zu accepted", fv, 8*nd); return; }
    VF_CHECK(r == 0, "float%zu %g -> %s%zu returned %d", 8*ns, fv, N[td], 8*nd, r);
    if (td == 0) { VF_CHECK(*d == (fv != 0), "float %g -> bool gave %d", fv, *d); return; }
    if (td == 3) {
      double g; if (nd == 4) { float f; memcpy(&f, d, 4); g = f; VF_CHECK(f == (float)fv || (isnan(f) && isnan(fv)), "float%zu %.17g -> float32 gave %.17g", 8*ns, fv, g); }
      else { memcpy(&g, d, 8); VF_CHECK(g == fv || (isnan(g) && isnan(fv)), "float%zu %.17g -> float64 gave %.17g", 8*ns, fv, g); }
      return;
    }
    if (!(fv > -9.3e18 && fv < 1.85e19)) return;
    iv = (I)fv;
  } else {
    if (td == 2 && iv < 0) { VF_CHECK(r != 0, "negative %lld cast to uint%zu accepted", (long long)iv, 8*nd); return; }
    VF_CHECK(r == 0, "%s%zu -> %s%zu returned %d", N[ts], 8*ns, N[td], 8*nd, r);
    if (td == 0) { VF_CHECK(*d == (iv != 0), "%s%zu %lld -> bool gave %d", N[ts], 8*ns, (long long)iv, *d); return; }
    if (td == 3) {
      if (nd == 4) { float f; memcpy(&f, d, 4); VF_CHECK(f == (float)iv, "%s%zu %lld -> float32 gave %.17g", N[ts], 8*ns, (long long)iv, f); }
      else { double f; memcpy(&f, d, 8); VF_CHECK(f == (double)iv, "%s%zu %lld -> float64 gave %.17g", N[ts], 8*ns, (long long)iv, f); }
      return;
    }
  }
  /* integer destinations */
  I hi = td == 1 ? (((I)1 << (8*nd-1)) - 1) : (((I)1 << (8*nd)) - 1), lo = td == 1 ? -hi - 1 : 0;
  if (iv < lo || iv > hi) return;
  u = 0; memcpy(&u, d, nd);
  I got = td == 1 ? (nd == 1 ? (int8_t)u : nd == 2 ? (int16_t)u : nd == 4 ? (int32_t)u : (int64_t)u) : (I)u;
  VF_CHECK(got == iv, "%s%zu %lld -> %s%zu gave %lld", N[ts], 8*ns, (long long)iv, N[td], 8*nd, (long long)got);
}

static void raw(void)
{
  err_set_stream(NULL);
  int back = vf_bool(), t = vf_choice(5);
  size_t ns = 1 + vf_choice(20), nd = 1 + vf_choice(20), i;
  DLiteType o = t == 4 ? dliteBlob : T[t], a = back ? o : dliteBlob, b = back ? dliteBlob : o;
  if (o == dliteBool && back) ns = 1;
  unsigned char *s = vf_alloc(ns), *d = vf_alloc(nd);
  vf_bytes(s, ns);
  if (a == dliteBool) *s &= 1;
  memset(d, 0xA5, nd);
  unsigned char keep[32]; memcpy(keep, s, ns);
  VF_CHECK(dlite_type_copy_cast(d, b, nd, s, a, ns) == 0, "raw cast refused");
  VF_CHECK(memcmp(keep, s, ns) == 0, "raw cast modified its source");
  for (i = 0; i < nd; i++) VF_CHECK(d[i] == (i < ns ? s[i] : 0), "raw cast of %zu to %zu bytes: byte %zu is %02x", ns, nd, i, d[i]);
}
/* a string is refused or gives its number; NULL is refused; nothing outside dest is touched */
VfBody vf_bodies[] = { {"numeric", numeric, 1}, {"raw", raw, 0}, {0} };
