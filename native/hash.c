#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "sha1_ref.h"
#include "utils/sha1.h"
#include "utils/md5.h"
#include "utils/sha3.h"
/* H01: digests against references written from the standards, data cut anyhow */
static void ref_md5(const unsigned char *m, size_t n, unsigned char out[16])
{
  static const int r[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; static uint32_t K[64];
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; size_t N = (n + 9 + 63)/64*64, o, i; int t;
  unsigned char *p = calloc(N, 1);
  if (!K[0]) for (t = 0; t < 64; t++) K[t] = (uint32_t)(fabs(sin(t + 1.0))*4294967296.0);
  memcpy(p, m, n); p[n] = 0x80;
  for (i = 0; i < 8; i++) p[N - 8 + i] = (unsigned char)((uint64_t)n*8 >> 8*i);
  for (o = 0; o < N; o += 64) {
    uint32_t X[16], a = h[0], b = h[1], c = h[2], d = h[3], f, k;
    for (t = 0; t < 16; t++) X[t] = p[o+4*t] | p[o+4*t+1] << 8 | p[o+4*t+2] << 16 | (uint32_t)p[o+4*t+3] << 24;
    for (t = 0; t < 64; t++) {
      if (t < 16) { f = (b & c) | (~b & d); k = t; } else if (t < 32) { f = (b & d) | (c & ~d); k = (5*t + 1)%16; }
      else if (t < 48) { f = b ^ c ^ d; k = (3*t + 5)%16; } else { f = c ^ (b | ~d); k = 7*t%16; }
      f += a + X[k] + K[t]; a = d; d = c; c = b; b += f << r[t/16][t%4] | f >> (32 - r[t/16][t%4]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  for (t = 0; t < 16; t++) out[t] = (unsigned char)(h[t/4] >> 8*(t%4));
  free(p);
}
static void keccak(uint64_t *A)
{
#define RT(v, n) ((n) ? (v) << (n) | (v) >> (64 - (n)) : (v))
  unsigned char R = 1; int ir, x, y, t, j;
  for (ir = 0; ir < 24; ir++) {
    uint64_t C[5], B[25];
    for (x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
    for (x = 0; x < 25; x++) A[x] ^= C[(x+4)%5] ^ RT(C[(x+1)%5], 1);
    B[0] = A[0];
    for (x = 1, y = 0, t = 0; t < 24; t++) { int n = y, m = (2*x + 3*y)%5, o = (t+1)*(t+2)/2%64; B[n + 5*m] = RT(A[x + 5*y], o); x = n; y = m; }
    for (y = 0; y < 25; y += 5) for (x = 0; x < 5; x++) A[x + y] = B[x + y] ^ (~B[(x+1)%5 + y] & B[(x+2)%5 + y]);
    for (j = 0; j < 7; j++) { if (R & 1) A[0] ^= 1ULL << ((1 << j) - 1); R = (unsigned char)(R << 1 ^ (R & 0x80 ? 0x71 : 0)); }
  }
}
static void ref_sha3(int bits, int pad, const unsigned char *m, size_t n, unsigned char *out)
{
  uint64_t A[25] = {0}; size_t rate = 200 - bits/4, i, pos = 0;
  for (i = 0; i < n; i++) { A[pos/8] ^= (uint64_t)m[i] << 8*(pos%8); if (++pos == rate) { keccak(A); pos = 0; } }
  A[pos/8] ^= (uint64_t)pad << 8*(pos%8); A[(rate-1)/8] ^= 0x80ULL << 8*((rate-1)%8); keccak(A);
  for (i = 0; i < (size_t)bits/8; i++) out[i] = (unsigned char)(A[i/8] >> 8*(i%8));
}
static unsigned char *data(size_t *n)
{
  static const size_t edge[] = {0, 1, 54, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 208, 271, 272, 273};
  *n = vf_bool() ? edge[vf_choice(29)] : vf_choice(vf_choice(8) ? 150 : 700);
  unsigned char *m = vf_alloc(*n); vf_bytes(m, *n); return m;
}
static size_t chunk(size_t left) { size_t c; switch (vf_choice(4)) { case 0: return left; case 1: c = 1 + vf_choice(8); break; case 2: c = vf_choice(140); break; default: c = 60 + vf_choice(10); } return c < left ? c : left; }
static unsigned char *piece(const unsigned char *m, size_t n) { unsigned char *p = vf_alloc(n); memcpy(p, m, n); return p; }
static void body_sha3(void)
{
  static const int sz[] = {256, 384, 512}; int bits = sz[vf_choice(3)], kec = vf_bool(); size_t n, i, c; unsigned char *m = data(&n), want[64], got[70]; sha3_context x;
  ref_sha3(bits, kec ? 1 : 6, m, n, want);
  if (vf_bool()) sha3_Init(&x, bits); else if (bits == 256) sha3_Init256(&x); else if (bits == 384) sha3_Init384(&x); else sha3_Init512(&x);
  sha3_SetFlags(&x, kec ? SHA3_FLAGS_KECCAK : SHA3_FLAGS_NONE);
  for (i = 0; i < n; i += c) { c = chunk(n - i); sha3_Update(&x, piece(m + i, c), c); }
  VF_CHECK(!memcmp(sha3_Finalize(&x), want, bits/8), "SHA-3-%d (%s) of %zu bytes", bits, kec ? "Keccak padding" : "FIPS 202", n);
  c = vf_bool() ? bits/8 : vf_choice(70); memset(got, 0xa5, 70);
  VF_CHECK(sha3_HashBuffer(bits, kec ? SHA3_FLAGS_KECCAK : SHA3_FLAGS_NONE, m, n, got, c) == SHA3_RETURN_OK, "hash of a buffer");
  size_t k = c < (size_t)bits/8 ? c : bits/8; VF_CHECK(!memcmp(got, want, k), "hash of a buffer of %zu bytes", n);
  for (i = k; i < 70; i++) VF_CHECK(got[i] == 0xa5, "bytes behind the digest are written");
  int bad = (int)vf_choice(2000); if (bad != 256 && bad != 384 && bad != 512) VF_CHECK(sha3_Init(&x, bad) != SHA3_RETURN_OK, "digest of %d bits", bad);
}
static void body_sha1(void)
{
  size_t n, i, c; unsigned char *m = data(&n), want[20], got[21]; SHA1_CTX x; ref_sha1(m, n, want);
  SHA1Init(&x); for (i = 0; i < n; i += c) { c = chunk(n - i); SHA1Update(&x, piece(m + i, c), c); }
  SHA1Final(got, &x); VF_CHECK(!memcmp(got, want, 20), "SHA-1 of %zu bytes", n);
  SHA1((char *)got, (char *)m, n); VF_CHECK(!memcmp(got, want, 20) && !got[20], "SHA-1 of a text of %zu bytes", n);
}
static void body_md5(void)
{
  size_t n, i, c; unsigned char *m = data(&n), want[16], got[16]; MD5_CTX x; ref_md5(m, n, want);
  MD5Init(&x); for (i = 0; i < n; i += c) { c = chunk(n - i); MD5Update(&x, piece(m + i, c), c); }
  MD5Final(got, &x); VF_CHECK(!memcmp(got, want, 16), "MD5 of %zu bytes", n);
}
VfBody vf_bodies[] = { {"sha3", body_sha3, 0}, {"sha1", body_sha1, 0}, {"md5", body_md5, 0}, {NULL} };
