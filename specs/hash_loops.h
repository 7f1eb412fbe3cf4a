#ifdef U_KECCAK
#define DLITE_GHOST_keccakf vf_round(s, round);
#endif
#ifdef U_SHA1ROUND
#define DLITE_CUT_sha1(v, w, x, y, z, i) vf_step(&v, &w, &x, &y, &z, i, block->l);
#endif
#ifdef U_MD5ROUND
#define DLITE_CUT_md5(a, b, c, d) vf_step(&(a), &(b), &(c), &(d));
#endif
