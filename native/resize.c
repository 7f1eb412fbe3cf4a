#include "entity_gen.h"
/* D01: resizing keeps what fits, zeroes what is new, leaves the rest alone; a failed resize changes nothing */
static void body_resize(void)
{
  GM g; Model m; int i, k, rounds;
  quiet();
  gen_meta(&g, 1);
  if (!g.nd) { drop_meta(&g); return; }
  DLiteInstance *inst = gen_inst(&g, &m, NULL);
  for (i = 0; i < g.np; i++) set_prop(&g, &m, inst, i);
  for (rounds = 1 + vf_choice(5); rounds; rounds--) {
    size_t d[MAXD]; int arg[MAXD], r; Model old = m;
    for (k = 0; k < g.nd; k++) { arg[k] = (int)vf_choice(6) - 1; d[k] = arg[k] < 0 ? m.dim[k] : (size_t)arg[k]; }
    int one = vf_choice(4) == 0, which = vf_choice(g.nd), size = vf_choice(6);
    if (one) for (k = 0; k < g.nd; k++) d[k] = k == which ? (size_t)size : m.dim[k];
    shape_of(&g, d, &m);
    if (one) r = vf_bool() ? dlite_instance_set_dimension_size(inst, dimnames[which], size) : dlite_instance_set_dimension_size_by_index(inst, which, size);
    else r = dlite_instance_set_dimension_sizes(inst, arg);
    if (negative) { VF_CHECK(r != 0, "a negative array dimension was accepted"); m = old; check_inst(&g, &m, inst, "after a refused resize"); continue; }
    VF_CHECK(r == 0, "resizing failed");
    for (i = 0; i < g.np; i++) {
      size_t sz = g.t[i].size, keep = m.n[i] < old.n[i] ? m.n[i] : old.n[i];
      m.val[i] = zeroval(&g, i, m.n[i]); memcpy(m.val[i], old.val[i], keep*sz);
    }
    check_inst(&g, &m, inst, "after resizing");
    if (vf_bool()) { set_prop(&g, &m, inst, vf_choice(g.np)); check_inst(&g, &m, inst, "after resizing and setting"); }
  }
  VF_CHECK(dlite_instance_set_dimension_size_by_index(inst, g.nd, 1) != 0, "dimension index beyond the last");
  VF_CHECK(dlite_instance_set_dimension_size(inst, "nope", 1) != 0, "unknown dimension");
  dlite_instance_decref(inst);
  drop_meta(&g);
}
/* references in elements that go away are released, the others kept */
static void body_refs(void)
{
  static int ser; char uri[64]; DLiteDimension dim = {"N", "n"}; char *sh[] = {"N"}; int i, k, want;
  DLiteProperty pr[] = { {"r", dliteRef, sizeof(void *), NULL, 1, sh, "", ""}, {"s", dliteStringPtr, sizeof(char *), NULL, 1, sh, "", ""} };
  quiet();
  sprintf(uri, "http://vf.org/0.1/R%d", ser++);
  DLiteMeta *meta = dlite_meta_create(uri, "", 1, &dim, 2, pr);
  size_t n = vf_choice(4), zero = 0; DLiteInstance *a = dlite_instance_create(meta, &n, NULL), *t = dlite_instance_create(meta, &zero, NULL), *r[4];
  for (i = want = 0; i < (int)n; i++) { r[i] = vf_bool() ? t : NULL; if (r[i]) { dlite_instance_incref(t); want++; } }
  if (n) VF_CHECK(dlite_instance_set_property(a, "r", r) == 0, "set references");
  for (k = 0; k < 3; k++) {
    size_t m = vf_choice(4);
    VF_CHECK(dlite_instance_set_dimension_size(a, "N", m) == 0, "resize");
    for (; n > m; n--) if (r[n-1]) want--;
    for (; n < m; n++) r[n] = NULL;
    VF_CHECK(t->_refcount == 1 + want, "referred instance has %d references, expected %d", t->_refcount, 1 + want);
    DLiteInstance **q = dlite_instance_get_property(a, "r");
    for (i = 0; i < (int)n; i++) VF_CHECK(q[i] == r[i], "reference %d of %zu", i, n);
  }
  dlite_instance_decref(a); VF_CHECK(t->_refcount == 1, "references released with the instance");
  dlite_instance_decref(t); dlite_meta_decref(meta); dlite_meta_decref(meta);
}
VfBody vf_bodies[] = { {"resize", body_resize, 0}, {"refs", body_refs, 0}, {NULL} };
