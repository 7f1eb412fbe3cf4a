/* U01: contracts for src/utils/uuid.c, uuid4.c and the id functions of dlite-misc.c */
#include <assert.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#ifndef U_MISC
# include "byteorder.h"
# include "utils/md5.h"
# include "utils/sha1.h"
# include "utils/uuid4.h"
# include "utils/uuid.h"
# include "vf_printf.h"
#endif
static int hx(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hv(int c) { return c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
static char lo(int i) { return (char)(i < 10 ? '0' + i : 'a' + i - 10); }
static int hy(int i) { return i == 8 || i == 13 || i == 18 || i == 23; }
static int wellformed(const char *s) { int i, r = 1; for (i = 0; i < 36; i++) if (hy(i) ? s[i] != '-' : !hx(s[i])) r = 0; return r; }

#ifdef U_UUID
#include "utils/uuid.c"
int uuid4_generate(char *b) { __CPROVER_assert(0, "not used here"); return 1; }
#if !defined(U_NAME)
void MD5Init(MD5_CTX *c) {} void MD5Update(MD5_CTX *c, const void *d, unsigned long n) {} void MD5Final(unsigned char *r, MD5_CTX *c) {}
void SHA1Init(SHA1_CTX *c) {} void SHA1Update(SHA1_CTX *c, const unsigned char *d, uint32_t n) {} void SHA1Final(unsigned char *r, SHA1_CTX *c) {}
#endif
/* the 16 bytes of an uuid in network order */
static unsigned char nb(uuid_s *u, int i)
{
  if (i < 4) return (unsigned char)(u->time_low >> (8*(3 - i)));
  if (i < 6) return (unsigned char)(u->time_mid >> (8*(5 - i)));
  if (i < 8) return (unsigned char)(u->time_hi_and_version >> (8*(7 - i)));
  return i == 8 ? u->clock_seq_hi_and_reserved : i == 9 ? u->clock_seq_low : u->node[i - 10];
}
static int tpos(int i) { return 2*i + (i >= 4) + (i >= 6) + (i >= 8) + (i >= 10); }   /* where byte i is in the text */
void h_isuuid(void)
{
  char s[37]; s[36] = 0;
  int r = isuuid(s);
  __CPROVER_assert((r != 0) == wellformed(s), "a text is accepted exactly if it is 8-4-4-4-12 hexadecimal digits");
  VF_REACH("isuuid");
}
void h_isuuid_short(void)          /* never reads behind the end of a text */
{
  size_t n; __CPROVER_assume(n < 36);
  char *s = malloc(n + 1); __CPROVER_assume(s != NULL);
  s[n] = 0;
  __CPROVER_assert(!isuuid(s), "a text of less than 36 characters is no UUID");
  VF_REACH("isuuid_short");
}
void h_hexbyte(void)
{
  char s[2]; __CPROVER_assume(hx(s[0]) && hx(s[1]));
  __CPROVER_assert(hexbyte(s) == 16*hv(s[0]) + hv(s[1]), "value of two hexadecimal digits");
  VF_REACH("hexbyte");
}
void h_tostr(void)
{
  uuid_s u; char s[37]; int i;
  uuid_as_string(&u, s);
  for (i = 0; i < 16; i++)
    __CPROVER_assert(s[tpos(i)] == lo(nb(&u, i) >> 4) && s[tpos(i) + 1] == lo(nb(&u, i) & 15), "two lower case digits for every byte, most significant first");
  for (i = 0; i < 36; i++) if (hy(i)) __CPROVER_assert(s[i] == '-', "hyphens");
  __CPROVER_assert(s[36] == 0, "terminated");
  VF_REACH("tostr");
}
void h_fromstr(void)
{
  uuid_s u, o; char s[40]; size_t len; int i, j, r;
  s[39] = 0;
  o = u;
  r = uuid_from_string(&u, s, len);
  __CPROVER_assert((r == 0) == (len == 36 && wellformed(s)), "accepted exactly if it is the text of a UUID");
  for (i = 0; i < 16; i++)
    if (r == 0) __CPROVER_assert(nb(&u, i) == 16*hv(s[tpos(i)]) + hv(s[tpos(i) + 1]), "value of every byte");
    else __CPROVER_assert(nb(&u, i) == nb(&o, i), "refused text leaves the result alone");
  VF_REACH("fromstr");
}
static int sgn(int x) { return (x > 0) - (x < 0); }
void h_cmp(void)
{
  uuid_s a, b; int i, w = 0;
  int r = uuid_compare(&a, &b);
  for (i = 0; i < 16; i++) if (!w && nb(&a, i) != nb(&b, i)) w = nb(&a, i) < nb(&b, i) ? -1 : 1;
  __CPROVER_assert(sgn(r) == w, "order of the bytes, hence a total order and the order of the texts");
  VF_REACH("cmp");
}
void h_format(void)
{
  uuid_s u; unsigned char h[16]; int v, i; __CPROVER_assume(v >= 1 && v <= 15);
  format_uuid_v3or5(&u, h, v);
  for (i = 0; i < 16; i++) {
    unsigned char w = h[i];
    if (i == 6) w = (unsigned char)((w & 0x0f) | (v << 4));
    if (i == 8) w = (unsigned char)((w & 0x3f) | 0x80);
    __CPROVER_assert(nb(&u, i) == w, "bytes of the hash with version and variant");
  }
  VF_REACH("format");
}
#ifdef U_NAME
/* what is hashed is recorded, what the hash is is arbitrary */
static unsigned char msg[64], dig[20]; static unsigned nmsg; static int ninit, nfinal; static const void *g_name; static int g_len;
#define UPD(d, n) do { unsigned i_; __CPROVER_assert(ninit == 1 && nfinal == 0, "hashed between start and end"); \
  for (i_ = 0; i_ < (n); i_++) { __CPROVER_assert(nmsg < 64, "room"); msg[nmsg++] = ((const unsigned char *)(d))[i_]; } } while (0)
void SHA1Init(SHA1_CTX *c) { ninit++; }
void SHA1Update(SHA1_CTX *c, const unsigned char *d, uint32_t n) { UPD(d, n); }
void SHA1Final(unsigned char *r, SHA1_CTX *c) { nfinal++; for (int i = 0; i < 20; i++) r[i] = dig[i]; }
void MD5Init(MD5_CTX *c) { ninit++; }
void MD5Update(MD5_CTX *c, const void *d, unsigned long n) { UPD(d, n); }
void MD5Final(unsigned char *r, MD5_CTX *c) { nfinal++; for (int i = 0; i < 16; i++) r[i] = dig[i]; }
void h_name(void)
{
  uuid_s ns, u; char name[24]; int len, md5, i; unsigned char d[20];
  __CPROVER_assume(len >= 0 && len <= 24);
  for (i = 0; i < 20; i++) dig[i] = d[i];
  if (md5) uuid_create_md5_from_name(&u, ns, name, len); else uuid_create_sha1_from_name(&u, ns, name, len);
  __CPROVER_assert(nmsg == 16 + (unsigned)len && nfinal == 1, "the namespace and the name are hashed, nothing else");
  for (i = 0; i < 16; i++) __CPROVER_assert(msg[i] == nb(&ns, i), "namespace in network order");
  for (i = 0; i < len; i++) __CPROVER_assert(msg[16 + i] == (unsigned char)name[i], "then the name");
  for (i = 0; i < 16; i++) {
    unsigned char w = dig[i];
    if (i == 6) w = (unsigned char)((w & 0x0f) | ((md5 ? 3 : 5) << 4));
    if (i == 8) w = (unsigned char)((w & 0x3f) | 0x80);
    __CPROVER_assert(nb(&u, i) == w, "bytes of the hash with version and variant");
  }
  VF_REACH("name");
}
#endif
#endif

#ifdef U_UUID4
static uint64_t rnd[2]; static int nr, nseed;
uint64_t rand_msws64(void) { __CPROVER_assert(nr < 2, "two random words"); return rnd[nr++]; }
int srand_msws64(uint64_t s) { nseed++; __CPROVER_assert(s == 0, "seeded from the system"); __CPROVER_assert(nr == 0, "before the first number"); return 0; }
#include "utils/uuid4.c"
void h_uuid4(void)
{
  char s[37], t[37]; int i; uint64_t a, b, c, d;
  rnd[0] = a; rnd[1] = b;
  __CPROVER_assert(uuid4_generate(s) == 0, "succeeds");
  __CPROVER_assert(nseed == 1, "seeded once");
  for (i = 0; i < 36; i++)
    if (hy(i)) __CPROVER_assert(s[i] == '-', "hyphens");
    else __CPROVER_assert((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f'), "lower case digits");
  __CPROVER_assert(s[14] == '4' && s[36] == 0, "version 4");
  __CPROVER_assert(s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b', "variant");
  /* nothing of the randomness is lost but the bits of variant and version: equal texts have 122 equal random bits */
  nr = 0; rnd[0] = c; rnd[1] = d;
  uuid4_generate(t);
  __CPROVER_assert(nseed == 1, "not seeded again");
  for (i = 0; i < 36; i++) if (s[i] != t[i]) return;
  int diff = 0; uint64_t x;
  for (x = a ^ c, i = 0; i < 64; i++) diff += (int)((x >> i) & 1);
  for (x = b ^ d, i = 0; i < 64; i++) diff += (int)((x >> i) & 1);
  __CPROVER_assert(diff <= 8, "at most the unused 8 of the 128 random bits differ");
  VF_REACH("uuid4");
}
#endif

#ifdef U_MISC
#include "utils/uuid.h"
#include "utils/uuid4.h"
#include "vf_printf.h"
#include "err_stub.h"
#define NSTR "http://onto-ns.com/data"
static char id[LEN + 1]; static size_t g_len; static int url, nhash, nrand; static char hashed[LEN + 40]; static size_t nhashed; static char res[36]; static int g_ns;
int isuuid(const char *s) { return wellformed(s); }      /* contract proved in h_isuuid */
int isurln(const char *s, int n) { __CPROVER_assert(s == id && n == (int)g_len, "asked about the id"); return url; }
int isurl(const char *s) { return url; }
void uuid_create_sha1_from_name(uuid_s *u, uuid_s ns, const void *name, int len)
{
  int i; nhash++;
  __CPROVER_assert(ns.time_low == 0x6ba7b810, "DNS namespace");
  __CPROVER_assert(len >= 0 && (size_t)len < sizeof(hashed), "length of what is hashed");
  nhashed = len; for (i = 0; i < len; i++) hashed[i] = ((const char *)name)[i];
}
void uuid_as_string(uuid_s *u, char s[37]) { int i; for (i = 0; i < 36; i++) s[i] = res[i]; s[36] = 0; }
int uuid4_generate(char *s) { int i; nrand++; if (g_ns & 2) return 1; for (i = 0; i < 36; i++) s[i] = res[i]; s[36] = 0; return 0; }
uuid_s NameSpace_DNS = { 0x6ba7b810, 0x9dad, 0x11d1, 0x80, 0xb4, {0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8} };
#include "dlite-misc.c"
static char lc(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
void h_getuuid(void)
{
  char buff[37]; size_t len; int i, isnull, u, ns; char c[LEN + 1], r[36]; DLiteIdType t;
  len = LEN;
  for (i = 0; i < LEN + 1; i++) id[i] = c[i];
  for (i = 0; i < LEN; i++) __CPROVER_assume(i >= (int)len || id[i] != 0);
  for (i = 0; i < 36; i++) { __CPROVER_assume(hy(i) ? r[i] == '-' : hx(r[i]) && lc(r[i]) == r[i]); res[i] = r[i]; }
  g_len = len; url = u; g_ns = ns;
  t = _dlite_get_uuidn(buff, isnull ? NULL : id, len, ns & 1);
  int empty = isnull || len == 0;
  int copy = !empty && (len == 36 ? wellformed(id) || 0 : 0);
  int urlcopy = !empty && !copy && url && len > 45 && wellformed(id + len - 36);
  if (empty && (ns & 2)) { __CPROVER_assert(t < 0, "failing random numbers are reported"); return; }
  if (empty) __CPROVER_assert(t == dliteIdRandom && nrand == 1 && nhash == 0, "no id: random UUID");
  else __CPROVER_assert(nrand == 0, "an id: nothing random");
  if (copy || urlcopy) {
    __CPROVER_assert(t == dliteIdCopy && nhash == 0, "the UUID itself");
    for (i = 0; i < 36; i++) __CPROVER_assert(buff[i] == lc(id[len - 36 + i]), "in lower case");
  } else {
    for (i = 0; i < 36; i++) __CPROVER_assert(buff[i] == res[i], "the generated UUID");
    if (!empty) {
      __CPROVER_assert(t == dliteIdHash && nhash == 1, "hashed once");
      size_t off = (!url && (ns & 1)) ? sizeof(NSTR) : 0;
      __CPROVER_assert(nhashed == len + off, "length of what is hashed");
      if (off) for (i = 0; i < (int)off; i++) __CPROVER_assert(hashed[i] == (NSTR "/")[i], "the namespace comes first");
      for (i = 0; i < (int)len; i++) __CPROVER_assert(hashed[off + i] == id[i], "the id is hashed");
    }
  }
  __CPROVER_assert(buff[36] == 0, "terminated");
  VF_REACH("getuuid");
}
#endif
