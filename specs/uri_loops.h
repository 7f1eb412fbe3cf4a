/* g_P[k]: where the encoding of source byte k starts (definition of the encoding, unfolded where it is used) */
#ifdef U_ENC
#define DLITE_LOOP_uri_encode_size \
  __CPROVER_assigns(i, j) \
  __CPROVER_loop_invariant(i <= len && j == g_P[i] && j <= 3*i) \
  __CPROVER_decreases(len - i)
#define DLITE_LOOP_uri_encode \
  __CPROVER_assigns(i, j, __CPROVER_object_whole(dst)) \
  __CPROVER_loop_invariant(i <= len && j == g_P[i] && j <= 3*i) \
  __CPROVER_loop_invariant(g_k < i ==> (g_P[g_k] < j && g_P[g_k + 1] == g_P[g_k] + WIDTH(src[g_k]) && g_P[g_k + 1] <= j && ENCODED(dst, g_P[g_k], src[g_k]))) \
  __CPROVER_decreases(len - i)
#define DLITE_GHOST_uri_encode  __CPROVER_assume(g_P[i + 1] == g_P[i] + WIDTH(src[i]));
#endif
#ifdef U_DEC
#define DLITE_LOOP_uri_decode \
  __CPROVER_assigns(i, j; dst != NULL: __CPROVER_object_whole(dst)) \
  __CPROVER_loop_invariant(j <= w_n && i == g_P[j] && i <= len && (j == w_n) == (i == len)) \
  __CPROVER_loop_invariant((dst != NULL && g_k < j) ==> dst[g_k] == w_src[g_k]) \
  __CPROVER_decreases(len - i)
/* unfolding of "src is the encoding of w_src" at byte j */
#define DLITE_GHOST_uri_decode \
  __CPROVER_assume(g_P[j] < len && g_P[j + 1] <= len && g_P[j + 1] == g_P[j] + WIDTH(w_src[j]) && ENCODED(src, g_P[j], w_src[j]) && g_P[j + 1] <= len && (j + 1 == w_n) == (g_P[j + 1] == len));
#endif
