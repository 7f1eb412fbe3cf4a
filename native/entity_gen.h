/* Random metadata, instances and a plain model of their content. */
#include "config.h"
#include "vf.h"
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "dlite.h"
#include "dlite-macros.h"
#include "utils/err.h"
#define MAXP 6
#define MAXD 3
#define MAXN 200
typedef struct { DLiteType type; size_t size; } TS;
static const TS types[] = {
  {dliteBlob, 1}, {dliteBlob, 3}, {dliteBlob, 9}, {dliteBool, sizeof(bool)}, {dliteInt, 1}, {dliteInt, 2}, {dliteInt, 4}, {dliteInt, 8},
  {dliteUInt, 1}, {dliteUInt, 2}, {dliteUInt, 4}, {dliteUInt, 8}, {dliteFloat, 4}, {dliteFloat, 8},
  {dliteFixString, 2}, {dliteFixString, 6}, {dliteStringPtr, sizeof(char *)} };
#define NTYPES (sizeof(types)/sizeof(types[0]))
static const char *const dimnames[MAXD] = {"N", "M", "K"};
static const char *const propnames[MAXP] = {"a", "bb", "c_c", "d", "e1", "f"};
/* dimension expressions, in terms of at most the first nd dimensions */
typedef struct { const char *text; int need; } EX;
static const EX exprs[] = { {"2", 0}, {"0", 0}, {"N", 1}, {"N+1", 1}, {"2*N", 1}, {"M", 2}, {"N*M", 2}, {"M+N-1", 2}, {"K", 3}, {"(N+K)*2", 3} };
static long evalex(int e, const size_t *d) {
  switch (e) {
  case 0: return 2; case 1: return 0; case 2: return d[0]; case 3: return d[0]+1; case 4: return 2*d[0]; case 5: return d[1];
  case 6: return d[0]*d[1]; case 7: return (long)(d[1]+d[0])-1; case 8: return d[2]; default: return (d[0]+d[2])*2;
  }
}
typedef struct {
  int nd, np; TS t[MAXP]; int pnd[MAXP], ex[MAXP][2];
  DLiteMeta *meta; char uri[80];
  DLiteDimension dims[MAXD]; DLiteProperty props[MAXP]; char *shape[MAXP][2];
} GM;
typedef struct { size_t dim[MAXD]; size_t n[MAXP]; size_t shape[MAXP][2]; char *val[MAXP]; } Model;  /* strings: array of char* (model-owned) */
static int vf_serial;

static void gen_meta(GM *g, int minprops)
{
  int i, j;
  memset(g, 0, sizeof *g);
  g->nd = vf_choice(MAXD + 1); g->np = minprops + vf_choice(MAXP + 1 - minprops);
  sprintf(g->uri, "http://vf.org/0.1/M%d", vf_serial++);
  for (i = 0; i < g->nd; i++) { g->dims[i].name = (char *)dimnames[i]; g->dims[i].description = "x"; }
  for (i = 0; i < g->np; i++) {
    DLiteProperty *p = &g->props[i];
    g->t[i] = types[vf_choice(NTYPES)]; g->pnd[i] = vf_choice(3);
    for (j = 0; j < g->pnd[i]; j++) {
      do g->ex[i][j] = vf_choice(sizeof(exprs)/sizeof(exprs[0])); while (exprs[g->ex[i][j]].need > g->nd);
      g->shape[i][j] = (char *)exprs[g->ex[i][j]].text;
    }
    p->name = (char *)propnames[i]; p->type = g->t[i].type; p->size = g->t[i].size; p->ndims = g->pnd[i];
    p->shape = g->pnd[i] ? g->shape[i] : NULL; p->unit = ""; p->description = "y";
  }
  g->meta = dlite_meta_create(g->uri, "desc", g->nd, g->dims, g->np, g->props);
  VF_CHECK(g->meta != NULL, "metadata could not be created");
}
static void drop_meta(GM *g) { dlite_meta_decref(g->meta); VF_CHECK(g->meta->_refcount == 1, "metadata has %d references instead of the store's", g->meta->_refcount); dlite_meta_decref(g->meta); }

static int negative;          /* set by shape_of when a dimension expression is negative: outside the domain */
static void shape_of(const GM *g, const size_t *dim, Model *m)
{
  negative = 0;
  for (int i = 0; i < g->nd; i++) m->dim[i] = dim[i];
  for (int i = 0; i < g->np; i++) {
    m->n[i] = 1;
    for (int j = 0; j < g->pnd[i]; j++) { long v = evalex(g->ex[i][j], dim); if (v < 0) { negative = 1; v = 0; } m->shape[i][j] = v; m->n[i] *= v; }
  }
}
static void gen_dims(const GM *g, size_t *dim, Model *m)
{ do { for (int i = 0; i < g->nd; i++) dim[i] = vf_choice(4); shape_of(g, dim, m); } while (negative); }
static char *zeroval(const GM *g, int i, size_t n) { char *v = vf_alloc(n*g->t[i].size); memset(v, 0, n*g->t[i].size); return v; }
static void gen_value(const GM *g, int i, char *dst)
{
  size_t k, sz = g->t[i].size;
  switch (g->t[i].type) {
  case dliteStringPtr: { char *s = NULL; size_t n = vf_choice(6); if (n == 5 && vf_choice(8) == 0) n = 5 + vf_choice(300); if (n) { s = vf_alloc(n); vf_str(s, n-1, "ab#\"/ \\"); } memcpy(dst, &s, sizeof s); break; }
  case dliteFixString: { size_t n = vf_choice(sz); memset(dst, 0, sz); for (k = 0; k < n; k++) dst[k] = "xyz"[vf_choice(3)]; break; }
  case dliteBool: { bool b = vf_bool(); memcpy(dst, &b, sizeof b); break; }
  case dliteFloat: { double x = (double)(int64_t)vf_u64()/4; float f = x; if (sz == 8) memcpy(dst, &x, 8); else memcpy(dst, &f, 4); break; }
  default: vf_bytes(dst, sz);
  }
}
static void gen_prop(const GM *g, Model *m, int i)
{ m->val[i] = vf_alloc(m->n[i]*g->t[i].size); for (size_t k = 0; k < m->n[i]; k++) gen_value(g, i, m->val[i] + k*g->t[i].size); }
static void check_prop(const GM *g, const Model *m, const DLiteInstance *inst, int i, const char *what)
{
  size_t k, sz = g->t[i].size;
  char *p = dlite_instance_get_property_by_index(inst, i);
  if (!m->n[i]) return;
  VF_CHECK(p != NULL, "%s: property %s has no value", what, propnames[i]);
  for (k = 0; k < m->n[i]; k++) {
    char *a = p + k*sz, *b = m->val[i] + k*sz;
    if (g->t[i].type == dliteStringPtr) {
      char *s, *t; memcpy(&s, a, sizeof s); memcpy(&t, b, sizeof t);
      VF_CHECK((!s && !t) || (s && t && strcmp(s, t) == 0), "%s: property %s[%zu] is \"%s\", expected \"%s\"", what, propnames[i], k, s ? s : "(null)", t ? t : "(null)");
    } else VF_CHECK(memcmp(a, b, sz) == 0, "%s: property %s[%zu] (type %d, %zu bytes) has another value", what, propnames[i], k, g->t[i].type, sz);
  }
}
static void check_inst(const GM *g, const Model *m, const DLiteInstance *inst, const char *what)
{
  int i, j;
  VF_CHECK(inst->meta == g->meta, "%s: wrong metadata", what);
  for (i = 0; i < g->nd; i++) {
    VF_CHECK((size_t)dlite_instance_get_dimension_size_by_index(inst, i) == m->dim[i], "%s: dimension %s is %d, expected %zu", what, dimnames[i], (int)dlite_instance_get_dimension_size_by_index(inst, i), m->dim[i]);
    VF_CHECK((size_t)dlite_instance_get_dimension_size(inst, dimnames[i]) == m->dim[i], "%s: dimension %s by name", what, dimnames[i]);
  }
  for (i = 0; i < g->np; i++) {
    for (j = 0; j < g->pnd[i]; j++) {
      VF_CHECK((size_t)dlite_instance_get_property_shape_by_index(inst, i, j) == m->shape[i][j], "%s: property %s has %d along dimension %d, expected %zu", what, propnames[i], (int)dlite_instance_get_property_shape_by_index(inst, i, j), j, m->shape[i][j]);
      VF_CHECK(DLITE_PROP_DIM(inst, i, j) == m->shape[i][j], "%s: shape of %s", what, propnames[i]);
    }
    check_prop(g, m, inst, i, what);
    VF_CHECK(dlite_instance_get_property(inst, propnames[i]) == dlite_instance_get_property_by_index(inst, i), "%s: property %s by name", what, propnames[i]);
  }
}
static DLiteInstance *gen_inst(const GM *g, Model *m, const char *id)
{
  size_t dim[MAXD]; gen_dims(g, dim, m);
  static int ser; char own[40];
  if (!id) switch (vf_choice(4)) {     /* no id, an arbitrary one, an uri, an uuid */
  case 1: sprintf(own, "vf own id %d", ser++); id = own; break;
  case 2: sprintf(own, "http://vf.org/data/%d", ser++); id = own; break;
  case 3: sprintf(own, "%08x-0000-4000-8000-000000000000", 0x7f000000 + ser++); id = own; break;
  }
  DLiteInstance *inst = dlite_instance_create(g->meta, dim, id);
  VF_CHECK(inst != NULL, "instance could not be created");
  for (int i = 0; i < g->np; i++) m->val[i] = zeroval(g, i, m->n[i]);
  return inst;
}
static void set_prop(const GM *g, Model *m, DLiteInstance *inst, int i)
{
  gen_prop(g, m, i);
  int r = vf_bool() ? dlite_instance_set_property(inst, propnames[i], m->val[i]) : dlite_instance_set_property_by_index(inst, i, m->val[i]);
  VF_CHECK(r == 0, "setting property %s failed", propnames[i]);
}
/* a deep copy of a model */
static Model *dup_model(const GM *g, const Model *m) { Model *q = vf_alloc(sizeof *q); *q = *m; return q; }  /* values are never changed in place */
static void quiet(void) { static int done; if (!done) { err_set_stream(NULL); done = 1; } }
