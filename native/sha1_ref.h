/* SHA-1 from FIPS 180-4, independent of the code under test */
#ifndef SHA1_REF_H
#define SHA1_REF_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
static void ref_sha1(const unsigned char *m, size_t n, unsigned char out[20])
{
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}, w[80], a, b, c, d, e, f, k, t;
  size_t N = (n + 9 + 63)/64*64, i, o; unsigned char *p = calloc(N, 1); int j;
#define ROL_(x, s) ((uint32_t)((x) << (s)) | ((x) >> (32 - (s))))
  memcpy(p, m, n); p[n] = 0x80;
  for (i = 0; i < 8; i++) p[N - 1 - i] = (unsigned char)(((uint64_t)n*8) >> 8*i);
  for (o = 0; o < N; o += 64) {
    for (j = 0; j < 16; j++) w[j] = (uint32_t)p[o+4*j] << 24 | p[o+4*j+1] << 16 | p[o+4*j+2] << 8 | p[o+4*j+3];
    for (; j < 80; j++) w[j] = ROL_(w[j-3] ^ w[j-8] ^ w[j-14] ^ w[j-16], 1);
    a = h[0]; b = h[1]; c = h[2]; d = h[3]; e = h[4];
    for (j = 0; j < 80; j++) {
      if (j < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
      else if (j < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
      else if (j < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ d; k = 0xca62c1d6; }
      t = ROL_(a, 5) + f + e + k + w[j]; e = d; d = c; c = ROL_(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  for (j = 0; j < 20; j++) out[j] = (unsigned char)(h[j/4] >> 8*(3 - j%4));
  free(p);
}
#endif
