#include "utils/clp2.h"
#define TOP ((size_t)1 << 63)
#define POW2(x) ((x) != 0 && ((x) & ((x) - 1)) == 0)

size_t clp2(size_t n)
__CPROVER_assigns()
__CPROVER_ensures((n == 0 || n > TOP) ==> __CPROVER_return_value == 0)
__CPROVER_ensures((n != 0 && n <= TOP) ==>
                  (POW2(__CPROVER_return_value) && __CPROVER_return_value >= n &&
                   (__CPROVER_return_value >> 1) < n))
;
size_t flp2(size_t n)
__CPROVER_assigns()
__CPROVER_ensures(n == 0 ==> __CPROVER_return_value == 0)
__CPROVER_ensures(n != 0 ==> (POW2(__CPROVER_return_value) && __CPROVER_return_value <= n &&
                              n - __CPROVER_return_value < __CPROVER_return_value))
;
void h_clp2(void) { size_t n; clp2(n); VF_REACH("clp2"); }
void h_flp2(void) { size_t n; flp2(n); VF_REACH("flp2"); }
