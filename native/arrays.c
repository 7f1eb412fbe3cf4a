#include "config.h"
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "dlite.h"
#include "dlite-arrays.h"
#include "utils/err.h"
/* A reference view: explicit table of element addresses in C order. */
typedef struct { int nd; size_t shape[6]; size_t n; char *at[2048]; } View;
static size_t total(int nd, const size_t *sh) { size_t n = 1; for (int i = 0; i < nd; i++) n *= sh[i]; return n; }
static void unravel(size_t k, int nd, const size_t *sh, int *ind) { for (int i = nd-1; i >= 0; i--) { ind[i] = k % sh[i]; k /= sh[i]; } }
static size_t ravel(int nd, const size_t *sh, const int *ind) { size_t k = 0; for (int i = 0; i < nd; i++) k = k*sh[i] + ind[i]; return k; }

static void check(const DLiteArray *a, const View *v, size_t esz, const char *what)
{
  int ind[6], i;
  VF_CHECK(a != NULL, "%s failed", what);
  VF_CHECK(a->ndims == v->nd && a->size == esz && a->type == dliteInt, "%s: wrong rank/type", what);
  for (i = 0; i < v->nd; i++) VF_CHECK(a->shape[i] == v->shape[i], "%s: dim %d is %zu, expected %zu", what, i, a->shape[i], v->shape[i]);
  size_t k, cont = 1;
  for (k = 0; k < v->n; k++) {
    unravel(k, v->nd, v->shape, ind);
    char *p = dlite_array_index(a, ind);
    VF_CHECK(p == v->at[k], "%s: element %zu at offset %ld, expected %ld", what, k, (long)(p - v->at[0]), (long)(v->at[k] - v->at[0]));
    if (v->nd == 1) p = dlite_array_vindex(a, ind[0]);
    else if (v->nd == 2) p = dlite_array_vindex(a, ind[0], ind[1]);
    else if (v->nd == 3) p = dlite_array_vindex(a, ind[0], ind[1], ind[2]);
    else if (v->nd == 4) p = dlite_array_vindex(a, ind[0], ind[1], ind[2], ind[3]);
    VF_CHECK(p == v->at[k], "%s: vindex of element %zu", what, k);
    if (v->at[k] != v->at[0] + k*esz) cont = 0;
  }
  if (v->n && dlite_array_is_continuous(a)) VF_CHECK(cont, "%s: reported continuous but is not", what);
  /* iteration visits every element once, in C order, then stops for good */
  DLiteArrayIter it;
  VF_CHECK(dlite_array_iter_init(&it, a) == 0, "iter_init");
  for (k = 0; k < v->n; k++) {
    char *p = dlite_array_iter_next(&it);
    VF_CHECK(p != NULL, "%s: iteration stopped after %zu of %zu elements", what, k, v->n);
    VF_CHECK(p == v->at[k], "%s: iteration step %zu gave the wrong element", what, k);
  }
  VF_CHECK(dlite_array_iter_next(&it) == NULL, "%s: iteration did not stop after %zu elements", what, v->n);
  VF_CHECK(dlite_array_iter_next(&it) == NULL, "%s: iteration restarted", what);
  dlite_array_iter_deinit(&it);
}

static void transpose(View *v)
{
  View *w = vf_alloc(sizeof *w); *w = *v; int ind[6], jnd[6], i;
  for (i = 0; i < v->nd; i++) w->shape[i] = v->shape[v->nd-1-i];
  for (size_t k = 0; k < v->n; k++) {
    unravel(k, w->nd, w->shape, ind);
    for (i = 0; i < v->nd; i++) jnd[v->nd-1-i] = ind[i];
    w->at[k] = v->at[ravel(v->nd, v->shape, jnd)];
  }
  *v = *w;
}
/* Python-style range of one dimension, by listing */
static int range(int len, int hs, int start, int hp, int stop, int step, int *out)
{
  int n = 0, i;
  if (start < 0) start += len; if (start < 0) start = 0; if (start > len) start = len;
  if (stop < 0) stop += len; if (stop < 0) stop = 0; if (stop > len) stop = len;
  if (step > 0) { for (i = hs ? start : 0; i < (hp ? stop : len); i += step) out[n++] = i; }
  else { for (i = (hs ? start : len) - 1; i >= (hp ? stop : 0); i += step) out[n++] = i; }
  return n;
}
static void slice(View *v, const int *start, const int *stop, const int *step)
{
  View *w = vf_alloc(sizeof *w); *w = *v; static int idx[6][2048]; int ind[6], i;
  for (i = 0; i < v->nd; i++) w->shape[i] = range(v->shape[i], !!start, start ? start[i] : 0, !!stop, stop ? stop[i] : 0, step ? step[i] : 1, idx[i]);
  w->n = total(w->nd, w->shape);
  for (size_t k = 0; k < w->n; k++) {
    unravel(k, w->nd, w->shape, ind);
    for (i = 0; i < v->nd; i++) ind[i] = idx[i][ind[i]];
    w->at[k] = v->at[ravel(v->nd, v->shape, ind)];
  }
  *v = *w;
}

static void views(void)
{
  err_set_stream(NULL);
  View *v = vf_alloc(sizeof *v); int i, ops, ind[6]; DLiteArray *a, *b; size_t k;
  int maxdim = vf_enumerating() ? 3 : 6;
  size_t esz = 1u << vf_choice(4);
  v->nd = 1 + vf_choice(vf_enumerating() ? 3 : 4);
  for (i = 0; i < v->nd; i++) v->shape[i] = vf_choice(12) == 0 && !vf_enumerating() ? 0 : 1 + vf_choice(maxdim);
  v->n = total(v->nd, v->shape);
  size_t bytes = (v->n ? v->n : 1)*esz;
  char *data = vf_alloc(bytes);
  for (k = 0; k < bytes; k++) data[k] = (char)(k*31 + 7);
  for (k = 0; k < v->n; k++) v->at[k] = data + k*esz;
  size_t *shp = vf_alloc(v->nd*sizeof(size_t)); memcpy(shp, v->shape, v->nd*sizeof(size_t));
  int order = vf_choice(4);
  if (order) a = dlite_array_create(data, dliteInt, esz, v->nd, shp);
  else { a = dlite_array_create_order(data, dliteInt, esz, v->nd, shp, 'F'); transpose(v); }
  check(a, v, esz, order ? "create" : "create F-order");
  if (order) { VF_CHECK(dlite_array_is_continuous(a), "fresh array not continuous"); if (v->n) VF_CHECK(dlite_array_size(a) == v->n*esz, "size %zu", dlite_array_size(a)); }
  int isC = !!order;
  ops = vf_choice(4);
  while (ops--) {
    switch (vf_choice(4)) {
    case 0: b = dlite_array_transpose(a); dlite_array_free(a); a = b; transpose(v); if (v->nd > 1) isC = 0; check(a, v, esz, "transpose"); break;
    case 1: case 2: {
      int *st = NULL, *sp = NULL, *sd = NULL;
      int w = vf_choice(8), zero = 0;
      if (w & 1) { st = vf_alloc(v->nd*sizeof(int)); for (i = 0; i < v->nd; i++) st[i] = (int)vf_choice(2*v->shape[i]+3) - (int)v->shape[i] - 1; }
      if (w & 2) { sp = vf_alloc(v->nd*sizeof(int)); for (i = 0; i < v->nd; i++) sp[i] = (int)vf_choice(2*v->shape[i]+3) - (int)v->shape[i] - 1; }
      if (w & 4) { sd = vf_alloc(v->nd*sizeof(int)); for (i = 0; i < v->nd; i++) { sd[i] = (int)vf_choice(11) - 5; if (!sd[i]) zero = 1; } }
      b = dlite_array_slice(a, st, sp, sd);
      if (zero) { VF_CHECK(b == NULL, "zero step accepted"); break; }
      dlite_array_free(a); a = b; slice(v, st, sp, sd); isC = 0;
      check(a, v, esz, "slice");
      if (v->n) ; break;
    }
    case 3: if (isC && v->n) {
      /* a compatible shape: split the element count */
      size_t n = v->n, sh[6]; int nd = 1 + vf_choice(4);
      for (i = 0; i < nd-1; i++) { size_t d = 1 + vf_choice(4); while (n % d) d--; sh[i] = d; n /= d; }
      sh[nd-1] = n;
      size_t bad[6]; memcpy(bad, sh, sizeof bad); { int q = vf_choice(nd); if (vf_choice(2)) bad[q] += 1; else if (bad[q] > 1) bad[q] -= 1; else bad[q] += 2; }
      VF_CHECK(dlite_array_reshape(a, nd, bad) == NULL, "incompatible reshape accepted");
      b = dlite_array_reshape(a, nd, sh); dlite_array_free(a); a = b;
      v->nd = nd; memcpy(v->shape, sh, nd*sizeof(size_t));
      check(a, v, esz, "reshape");
    } else if (v->n > 1) {
      int c = 1; for (k = 0; k < v->n; k++) if (v->at[k] != v->at[0] + k*esz) c = 0;
      if (!c) { size_t one = v->n; VF_CHECK(dlite_array_reshape(a, 1, &one) == NULL, "reshape of a non-continuous array accepted"); }
    } break;
    }
    if (v->n > 1000) break;
  }
  if (v->n && vf_choice(2)) {
    char *c = dlite_array_make_continuous(a);
    VF_CHECK(c != NULL, "make_continuous failed");
    for (k = 0; k < v->n; k++) {
      VF_CHECK(memcmp(c + k*esz, v->at[k], esz) == 0, "make_continuous: element %zu differs", k);
      unravel(k, v->nd, v->shape, ind);
      VF_CHECK(memcmp(dlite_array_index(a, ind), v->at[k], esz) == 0, "array changed by make_continuous at %zu", k);
    }
    VF_CHECK(dlite_array_is_continuous(a), "not continuous after make_continuous");
    free(c);
  }
  dlite_array_free(a);
}
VfBody vf_bodies[] = { {"views", views, 1}, {0} };
