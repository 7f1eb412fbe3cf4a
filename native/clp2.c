#include "vf.h"
#include "utils/clp2.h"
static void up(void) {
  size_t n = vf_u64(), r = clp2(n), p;
  size_t top = (size_t)1 << 63;
  if (n == 0 || n > top) { VF_CHECK(r == 0, "clp2(%zu) = %zu", n, r); return; }
  for (p = 1; p < n; p <<= 1) ;
  VF_CHECK(r == p, "clp2(%zu) = %zu, expected %zu", n, r, p);
}
static void down(void) {
  size_t n = vf_u64(), r = flp2(n), p;
  if (n == 0) { VF_CHECK(r == 0, "flp2(0) = %zu", r); return; }
  for (p = (size_t)1 << 63; p > n; p >>= 1) ;
  VF_CHECK(r == p, "flp2(%zu) = %zu, expected %zu", n, r, p);
}
VfBody vf_bodies[] = { {"clp2", up, 1}, {"flp2", down, 1}, {0} };
