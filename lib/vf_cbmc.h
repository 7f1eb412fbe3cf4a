/* force-included in every translation unit compiled for the verifier */
#ifndef VF_CBMC_H
#define VF_CBMC_H
#include <stddef.h>
#include <stdint.h>
/* ghost state: arbitrary positions and ghost arrays, chosen by the harness */
extern size_t g_k, g_pos;
extern size_t *g_P;
extern int *g_I;
#include "vf.h"
#endif
