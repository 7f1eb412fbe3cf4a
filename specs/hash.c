/* H01: contracts for sha3.c (absorbing and padding over an arbitrary permutation), sha1.c and md5.c (blocks and length) */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#ifdef U_KECCAK
/* one round of Keccak-f[1600] from FIPS 202: theta, rho, pi, chi, iota on lanes A[x + 5y] */
#define ROTL(v, n) ((n) % 64 ? ((v) << (n) % 64) | ((v) >> (64 - (n) % 64)) : (v))
static uint64_t g_a[25]; static int g_rounds;
static void ref_round(uint64_t *A, int ir)
{
  uint64_t C[5], D[5], B[25]; int x, y, t, j, l; unsigned char R;
  for (x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
  for (x = 0; x < 5; x++) D[x] = C[(x+4)%5] ^ ROTL(C[(x+1)%5], 1);
  for (x = 0; x < 25; x++) A[x] ^= D[x%5];
  B[0] = A[0];
  for (x = 1, y = 0, t = 0; t < 24; t++) {            /* rho: offset (t+1)(t+2)/2 along (x,y) -> (y,2x+3y); pi: lane (x,y) goes to (y,2x+3y) */
    int o = (t+1)*(t+2)/2 % 64, nx = y, ny = (2*x + 3*y)%5;
    B[nx + 5*ny] = ROTL(A[x + 5*y], o);
    x = nx; y = ny;
  }
  for (y = 0; y < 5; y++) for (x = 0; x < 5; x++) A[x + 5*y] = B[x + 5*y] ^ (~B[(x+1)%5 + 5*y] & B[(x+2)%5 + 5*y]);
  for (j = 0; j < 7; j++) {                              /* iota: bit 2^j - 1 is rc(j + 7 ir), the output of the LFSR x^8+x^6+x^5+x^4+1 */
    for (R = 1, l = 0; l < j + 7*ir; l++) R = (unsigned char)(R << 1 ^ (R & 0x80 ? 0x71 : 0));
    if (R & 1) A[0] ^= (uint64_t)1 << ((1 << j) - 1);
  }
}
static void vf_round(uint64_t *s, int round)
{
  int i; uint64_t x[25];
  __CPROVER_assert(round == g_rounds && round < 24, "rounds in order");
  g_rounds++;
  ref_round(g_a, round);
  for (i = 0; i < 25; i++) __CPROVER_assert(s[i] == g_a[i], "the round is the one of the standard");
  for (i = 0; i < 25; i++) s[i] = g_a[i] = x[i];         /* cut: the next round starts from an arbitrary common state */
}
#include "utils/sha3.c"
void h_keccak(void)
{
  uint64_t s[25]; int i;
  for (i = 0; i < 25; i++) g_a[i] = s[i];
  keccakf(s);
  __CPROVER_assert(g_rounds == 24, "24 rounds");
  for (i = 0; i < 25; i++) __CPROVER_assert(s[i] == g_a[i], "state after the rounds");
  VF_REACH("keccak");
}
#endif
#ifdef U_SHA1ROUND
/* FIPS 180-4, 6.1.2 (sums modulo 2^32) */
#define ROL32(v, n) ((uint32_t)((v) << (n)) | ((v) >> (32 - (n))))
static uint32_t g_s[5], g_w[80], g_0[5]; static int g_t;
static void vf_step(uint32_t *a, uint32_t *b, uint32_t *c, uint32_t *d, uint32_t *e, int i, uint32_t *l)
{
  uint32_t f, k, T, x[5], W; int t = g_t;
  __CPROVER_assert(i == t && t < 80, "steps in order");
  if (t >= 16) g_w[t] = ROL32(g_w[t-3] ^ g_w[t-8] ^ g_w[t-14] ^ g_w[t-16], 1);
  __CPROVER_assert(l[t & 15] == g_w[t], "message schedule");
  if (t < 20) { f = (g_s[1] & g_s[2]) ^ (~g_s[1] & g_s[3]); k = 0x5a827999; }
  else if (t < 40) { f = g_s[1] ^ g_s[2] ^ g_s[3]; k = 0x6ed9eba1; }
  else if (t < 60) { f = (g_s[1] & g_s[2]) ^ (g_s[1] & g_s[3]) ^ (g_s[2] & g_s[3]); k = 0x8f1bbcdc; }
  else { f = g_s[1] ^ g_s[2] ^ g_s[3]; k = 0xca62c1d6; }
  T = g_s[4] + (f + g_w[t] + k + ROL32(g_s[0], 5));
  g_s[4] = g_s[3]; g_s[3] = g_s[2]; g_s[2] = ROL32(g_s[1], 30); g_s[1] = g_s[0]; g_s[0] = T;
  /* after the step of the code its e is a, its a is b, ... */
  __CPROVER_assert(*e == g_s[0] && *a == g_s[1] && *b == g_s[2] && *c == g_s[3] && *d == g_s[4], "the step is the one of the standard");
  *e = g_s[0] = x[0]; *a = g_s[1] = x[1]; *b = g_s[2] = x[2]; *c = g_s[3] = x[3]; *d = g_s[4] = x[4];   /* cut */
  l[t & 15] = g_w[t] = W;
  g_t++;
}
#include "config.h"
#include "utils/sha1.c"
void h_sha1(void)
{
  unsigned char m[64]; uint32_t st[5]; int i;
  for (i = 0; i < 5; i++) g_0[i] = g_s[i] = st[i];
  for (i = 0; i < 16; i++) g_w[i] = (uint32_t)m[4*i] << 24 | (uint32_t)m[4*i+1] << 16 | (uint32_t)m[4*i+2] << 8 | m[4*i+3];
  SHA1Transform(st, m);
  __CPROVER_assert(g_t == 80, "80 steps");
  for (i = 0; i < 5; i++) __CPROVER_assert(st[i] == g_0[i] + g_s[i], "sum with the state before");
  SHA1_CTX c; SHA1Init(&c);
  __CPROVER_assert(c.state[0] == 0x67452301 && c.state[1] == 0xefcdab89 && c.state[2] == 0x98badcfe && c.state[3] == 0x10325476 && c.state[4] == 0xc3d2e1f0 && c.count[0] == 0 && c.count[1] == 0, "initial value");
  VF_REACH("sha1");
}
#endif
#ifdef U_MD5ROUND
/* RFC 1321 */
#include "utils/md5.h"
#define ROL32(v, n) ((uint32_t)((v) << (n)) | ((v) >> (32 - (n))))
static const uint32_t g_K[64] = {
  0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
  0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
  0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
  0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
  0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
  0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
  0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
  0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391 };   /* floor(2^32 |sin(i + 1)|) */
static const unsigned char g_r[4][4] = { {7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21} };
static uint32_t g_s[4], g_x[16], g_0[4]; static int g_t;
static void vf_step(MD5_u32plus *a, MD5_u32plus *b, MD5_u32plus *c, MD5_u32plus *d)
{
  uint32_t f, v, x[4]; int t = g_t, k;
  __CPROVER_assert(t < 64, "at most 64 steps");
  if (t < 16) { f = (g_s[1] & g_s[2]) | (~g_s[1] & g_s[3]); k = t; }
  else if (t < 32) { f = (g_s[1] & g_s[3]) | (g_s[2] & ~g_s[3]); k = (5*t + 1)%16; }
  else if (t < 48) { f = g_s[1] ^ g_s[2] ^ g_s[3]; k = (3*t + 5)%16; }
  else { f = g_s[2] ^ (g_s[1] | ~g_s[3]); k = 7*t%16; }
  v = g_s[0] + (f + g_x[k] + g_K[t]);
  v = g_s[1] + ROL32(v, g_r[t/16][t%4]);
  g_s[0] = g_s[3]; g_s[3] = g_s[2]; g_s[2] = g_s[1]; g_s[1] = v;
  __CPROVER_assert(*a == g_s[1] && *b == g_s[2] && *c == g_s[3] && *d == g_s[0], "the step is the one of the standard");
  *a = g_s[1] = x[1]; *b = g_s[2] = x[2]; *c = g_s[3] = x[3]; *d = g_s[0] = x[0];      /* cut */
  g_t++;
}
#include "utils/md5.c"
void h_md5(void)
{
  unsigned char m[64]; MD5_CTX c; int i;
  g_0[0] = g_s[0] = c.a; g_0[1] = g_s[1] = c.b; g_0[2] = g_s[2] = c.c; g_0[3] = g_s[3] = c.d;
  for (i = 0; i < 16; i++) g_x[i] = (uint32_t)m[4*i+3] << 24 | (uint32_t)m[4*i+2] << 16 | (uint32_t)m[4*i+1] << 8 | m[4*i];
  const void *p = body(&c, m, 64);
  __CPROVER_assert(p == m + 64, "one block");
  __CPROVER_assert(g_t == 64, "64 steps");
  __CPROVER_assert(c.a == g_0[0] + g_s[0] && c.b == g_0[1] + g_s[1] && c.c == g_0[2] + g_s[2] && c.d == g_0[3] + g_s[3], "sum with the state before");
  MD5Init(&c);
  __CPROVER_assert(c.a == 0x67452301 && c.b == 0xefcdab89 && c.c == 0x98badcfe && c.d == 0x10325476 && c.lo == 0 && c.hi == 0, "initial value");
  VF_REACH("md5");
}
#endif
#ifdef U_SHA3
#include "utils/sha3.c"
#define RATE(c) (25 - ((c)->capacityWords & 0x7fffffff))
/* an arbitrary permutation: call k of the reference is recorded, call k of the code must be made with the same state */
static uint64_t pre[25], post[25]; static int nref, ncode;      /* at most one application per harness */
void vf_keccakf(uint64_t s[25])
{
  int i;
  __CPROVER_assert(ncode < nref, "the permutation is applied exactly where the standard says");
  for (i = 0; i < 25; i++) __CPROVER_assert(s[i] == pre[i], "to the state of the standard");
  for (i = 0; i < 25; i++) s[i] = post[i];
  ncode++;
}
static void ref_keccakf(uint64_t s[25])
{
  int i; uint64_t x[25];
  __CPROVER_assert(nref < 1, "room for recorded calls");
  for (i = 0; i < 25; i++) { pre[i] = s[i]; s[i] = x[i]; post[i] = x[i]; }
  nref++;
}
/* abstract state: the sponge with every byte so far xored in, and the position in the block */
static uint64_t A[25]; static unsigned pos;
static void abstract(sha3_context *c) { int i; for (i = 0; i < 25; i++) A[i] = c->u.s[i] ^ (i == (int)c->wordIndex ? c->saved : 0); pos = 8*c->wordIndex + c->byteIndex; }
static void absorb(unsigned char b, unsigned rate)       /* FIPS 202: one byte */
{
  A[pos/8] ^= (uint64_t)b << 8*(pos%8);
  if (++pos == 8*rate) { ref_keccakf(A); pos = 0; }
}
static int inv(sha3_context *c)
{
  unsigned cw = c->capacityWords & 0x7fffffff;
  return (cw == 8 || cw == 12 || cw == 16) && c->byteIndex < 8 && c->wordIndex < 25 - cw && (c->saved >> 8*c->byteIndex) == 0;
}
void h_update(void)
{
  sha3_context c; unsigned char m[LEN + 1]; size_t n, i; unsigned cap;
  __CPROVER_assume(inv(&c)); __CPROVER_assume((c.capacityWords & 0x7fffffff) == CAPW);
  n = LEN; c.byteIndex = BI; __CPROVER_assume(inv(&c));
  cap = c.capacityWords;
  abstract(&c);
  for (i = 0; i < LEN; i++) absorb(m[i], 25 - CAPW);
  uint64_t B[25]; for (i = 0; i < 25; i++) B[i] = A[i]; unsigned p = pos;
  sha3_Update(&c, m, n);
  __CPROVER_assert(ncode == nref, "every application of the permutation");
  __CPROVER_assert(inv(&c) && c.capacityWords == cap, "well-formed context");
  abstract(&c);
  __CPROVER_assert(pos == p, "position in the block");
  for (i = 0; i < 25; i++) __CPROVER_assert(A[i] == B[i], "every byte is absorbed exactly once, in order");
  VF_REACH("update");
}
void h_final(void)
{
  sha3_context c; int i; const unsigned char *h;
  __CPROVER_assume(inv(&c)); __CPROVER_assume((c.capacityWords & 0x7fffffff) == CAPW);
  abstract(&c);
  A[pos/8] ^= (uint64_t)(c.capacityWords & 0x80000000 ? 0x01 : 0x06) << 8*(pos%8);     /* padding of Keccak and of SHA-3 */
  A[25 - CAPW - 1] ^= (uint64_t)0x80 << 56;
  ref_keccakf(A);
  h = sha3_Finalize(&c);
  __CPROVER_assert(ncode == 1, "one application of the permutation");
  for (i = 0; i < 200; i++) __CPROVER_assert(h[i] == (unsigned char)(A[i/8] >> 8*(i%8)), "the digest is the state, least significant byte first");
  VF_REACH("final");
}
void h_init(void)
{
  sha3_context c, o; unsigned bits; int i, flag; enum SHA3_FLAGS r; sha3_return_t e;
  o = c;
  e = sha3_Init(&c, bits);
  __CPROVER_assert((e == SHA3_RETURN_OK) == (bits == 256 || bits == 384 || bits == 512), "the three digest sizes");
  if (e != SHA3_RETURN_OK) { __CPROVER_assert(c.saved == o.saved && c.byteIndex == o.byteIndex && c.wordIndex == o.wordIndex && c.capacityWords == o.capacityWords, "refused size: context untouched"); return; }
  r = sha3_SetFlags(&c, flag ? SHA3_FLAGS_KECCAK : SHA3_FLAGS_NONE);
  __CPROVER_assert(r == (flag ? SHA3_FLAGS_KECCAK : SHA3_FLAGS_NONE), "flag");
  __CPROVER_assert(inv(&c) && (c.capacityWords & 0x7fffffff) == bits/32 && !!(c.capacityWords & 0x80000000) == !!flag, "capacity of twice the digest, padding as asked");
  for (i = 0; i < 25; i++) __CPROVER_assert(c.u.s[i] == 0, "zero state");
  __CPROVER_assert(c.saved == 0 && c.byteIndex == 0 && c.wordIndex == 0, "nothing absorbed");
  VF_REACH("init");
}
#endif

#ifdef U_BLK           /* sha1 and md5: blocks of 64 bytes, padding and 64-bit length over an arbitrary compression function */
static unsigned char blk[4][64]; static int nblk;
#ifdef U_SHA1
#include "config.h"
#include "utils/sha1.c"
void vf_transform(uint32_t state[5], const unsigned char b[64])
{ int i; __CPROVER_assert(nblk < 4, "room"); for (i = 0; i < 64; i++) blk[nblk][i] = b[i]; nblk++; }
#define CTX SHA1_CTX
#define COUNT(c) ((((uint64_t)(c)->count[1] << 32) | (c)->count[0]))
#define ALIGNED(c) ((c)->count[0] % 8 == 0)
#define UPDATE SHA1Update
/* count[0] with the position in the block given: every bit count with it, in steps that keep the position concrete */
#define SETLOW(c, ub) ((c)->count[0] = CNT0 + 8*(ub))
#else
#include "utils/md5.h"
#include "utils/md5.c"
const void *vf_body(MD5_CTX *c, const void *data, unsigned long size)
{
  const unsigned char *p = data; int i;
  do { __CPROVER_assert(nblk < 4, "room"); for (i = 0; i < 64; i++) blk[nblk][i] = p[i]; nblk++; p += 64; } while (size -= 64);
  return p;
}
#define CTX MD5_CTX
#define COUNT(c) ((((uint64_t)(c)->hi << 29) | (c)->lo) << 3)
#define ALIGNED(c) ((c)->lo < (1u << 29) && (c)->hi < (1u << 29))
#define UPDATE MD5Update
#define SETLOW(c, ub) ((c)->lo = CNT0/8 + (ub))
#endif
static void blocks_(const size_t used, const size_t n)
{
  CTX c; unsigned char m[64*3 + 1], w[64*4 + 1]; size_t i; uint64_t cnt;
  __CPROVER_assume(ALIGNED(&c));
  SETLOW(&c, used); cnt = COUNT(&c); nblk = 0;
  for (i = 0; i < 64; i++) w[i] = c.buffer[i];
  for (i = 0; i < n; i++) w[used + i] = m[i];
  UPDATE(&c, m, n);
  __CPROVER_assert((size_t)nblk == (used + n)/64, "as many blocks as are complete");
  for (i = 0; i < 64*((used + n)/64); i++) __CPROVER_assert(blk[i/64][i%64] == w[i], "the blocks are the data in order");
  for (i = 0; i < (used + n)%64; i++) __CPROVER_assert(c.buffer[i] == w[64*((used + n)/64) + i], "the rest is kept");
  __CPROVER_assert(COUNT(&c) == cnt + 8*(uint64_t)n, "number of bits so far");
  __CPROVER_assert(ALIGNED(&c) || (cnt >> 60), "well-formed context");
}
void h_blocks(void)      /* every position in a block, and every amount of data around the block boundaries */
{
  size_t used, n;
  for (used = UB; used < UB + 8; used++) {
    blocks_(used, 0);
    for (n = 62; n <= 66; n++) { if (n >= used) blocks_(used, n - used); blocks_(used, 64 + n - used); }
  }
  VF_REACH("blocks");
}
static void pad_(const size_t used)
{
  CTX c; unsigned char d[20], b[64]; size_t i, nb; uint64_t cnt;
  __CPROVER_assume(ALIGNED(&c));
  SETLOW(&c, used); cnt = COUNT(&c); nb = used < 56 ? 1 : 2; nblk = 0;
  for (i = 0; i < 64; i++) b[i] = c.buffer[i];
#ifdef U_SHA1
  uint32_t st[5]; for (i = 0; i < 5; i++) st[i] = c.state[i];
  SHA1Final(d, &c);
  for (i = 0; i < 20; i++) __CPROVER_assert(d[i] == (unsigned char)(st[i/4] >> 8*(3 - i%4)), "digest: the state, most significant byte first");
#else
  uint32_t st[4] = {c.a, c.b, c.c, c.d};
  MD5Final(d, &c);
  for (i = 0; i < 16; i++) __CPROVER_assert(d[i] == (unsigned char)(st[i/4] >> 8*(i%4)), "digest: the state, least significant byte first");
#endif
  __CPROVER_assert((size_t)nblk == nb, "one or two blocks of padding");
  for (i = 0; i < 64*nb; i++) {
    unsigned char w = i < used ? b[i < 64 ? i : 0] : i == used ? 0x80 : 0;
    size_t k = i - (64*nb - 8);
#ifdef U_SHA1
    if (i >= 64*nb - 8) w = (unsigned char)(cnt >> 8*(7 - k));
#else
    if (i >= 64*nb - 8) w = (unsigned char)(cnt >> 8*k);
#endif
    __CPROVER_assert(blk[i/64][i%64] == w, "the rest, 0x80, zeros, the number of bits");
  }
}
void h_pad(void)         /* every position in a block */
{
  size_t used;
  for (used = UB; used < UB + 8; used++) pad_(used);
  VF_REACH("pad");
}
#endif
