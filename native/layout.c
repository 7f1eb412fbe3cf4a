#include "entity_gen.h"
typedef struct { size_t off, len; const char *what; } Slot;
static void body_layout(void)
{
  GM g; Model m; Slot s[2*MAXP + 8]; int n = 0, i, j; size_t total;
  quiet();
  gen_meta(&g, 1);
  DLiteInstance *inst = gen_inst(&g, &m, NULL);
  check_inst(&g, &m, inst, "after creation");
  total = dlite_instance_size(g.meta, m.dim);
  s[n++] = (Slot){0, sizeof(DLiteInstance), "header"};
  if (g.nd) s[n++] = (Slot){(char *)DLITE_DIMS(inst) - (char *)inst, g.nd*sizeof(size_t), "dimension sizes"};
  for (i = 0; i < g.np; i++) {
    size_t off = (char *)DLITE_PROP(inst, i) - (char *)inst, len = g.pnd[i] ? sizeof(void *) : g.t[i].size, al = 1;
    s[n++] = (Slot){off, len, propnames[i]};
    if (g.pnd[i] || g.t[i].type == dliteStringPtr) al = sizeof(void *);
    else if (g.t[i].type == dliteInt || g.t[i].type == dliteUInt || g.t[i].type == dliteFloat) al = g.t[i].size;
    VF_CHECK(off % al == 0, "property %s at offset %zu is not aligned to %zu bytes", propnames[i], off, al);
  }
  if (g.meta->_npropdims) s[n++] = (Slot){g.meta->_propdimsoffset, g.meta->_npropdims*sizeof(size_t), "property shapes"};
  for (i = 0; i < n; i++) {
    VF_CHECK(s[i].off + s[i].len <= total, "%s reaches byte %zu of an instance of %zu bytes", s[i].what, s[i].off + s[i].len, total);
    for (j = 0; j < i; j++)
      VF_CHECK(s[i].off >= s[j].off + s[j].len || s[j].off >= s[i].off + s[i].len, "%s at %zu overlaps %s at %zu", s[i].what, s[i].off, s[j].what, s[j].off);
  }
  for (int rounds = 1 + vf_choice(2*MAXP); rounds; rounds--) {
    set_prop(&g, &m, inst, vf_choice(g.np));
    check_inst(&g, &m, inst, "after setting a property");
    if (vf_choice(4) == 0) {   /* copying a property out gives the same value */
      i = vf_choice(g.np);
      if (m.n[i] && g.t[i].type != dliteStringPtr) {
        char *buf = vf_alloc(m.n[i]*g.t[i].size);
        VF_CHECK(dlite_instance_copy_property_by_index(inst, i, 'C', buf) == 0, "copy_property");
        for (size_t k = 0; k < m.n[i]; k++) {
          size_t sz = g.t[i].size;
          VF_CHECK((g.t[i].type == dliteFixString) ? strncmp(buf + k*sz, m.val[i] + k*sz, sz) == 0 : memcmp(buf + k*sz, m.val[i] + k*sz, sz) == 0, "copied property %s[%zu] differs", propnames[i], k);
        }
      }
    }
  }
  VF_CHECK(dlite_instance_get_property_by_index(inst, g.np) == NULL, "property index beyond the last");
  VF_CHECK(dlite_instance_get_property(inst, "nope") == NULL, "unknown property");
  VF_CHECK(dlite_instance_decref(inst) == 0, "decref");
  drop_meta(&g);
}
static void body_align(void)
{
  static const struct { DLiteType t; size_t size, al; } ok[] = {
    {dliteBlob, 1, 1}, {dliteBlob, 7, 1}, {dliteBool, sizeof(bool), _Alignof(bool)}, {dliteInt, 1, 1}, {dliteInt, 2, 2}, {dliteInt, 4, 4}, {dliteInt, 8, 8},
    {dliteUInt, 1, 1}, {dliteUInt, 2, 2}, {dliteUInt, 4, 4}, {dliteUInt, 8, 8}, {dliteFloat, 4, 4}, {dliteFloat, 8, 8}, {dliteFixString, 5, 1},
    {dliteStringPtr, sizeof(char *), _Alignof(char *)}, {dliteRef, sizeof(void *), _Alignof(void *)},
    {dliteDimension, sizeof(DLiteDimension), _Alignof(DLiteDimension)}, {dliteProperty, sizeof(DLiteProperty), _Alignof(DLiteProperty)}, {dliteRelation, sizeof(DLiteRelation), _Alignof(DLiteRelation)} };
  int k = vf_choice(sizeof(ok)/sizeof(ok[0])); size_t off = vf_choice(40), al = dlite_type_get_alignment(ok[k].t, ok[k].size), pad;
  quiet();
  VF_CHECK(al == ok[k].al, "alignment of type %d with size %zu is %zu, expected %zu", ok[k].t, ok[k].size, al, ok[k].al);
  pad = dlite_type_padding_at(ok[k].t, ok[k].size, off);
  VF_CHECK(pad < al && (off + pad) % al == 0, "padding %zu at offset %zu for alignment %zu", pad, off, al);
  size_t prev = vf_choice(20);
  size_t mo = dlite_type_get_member_offset(off, prev, ok[k].t, ok[k].size);
  VF_CHECK(mo % al == 0 && mo >= off + prev && mo - (off + prev) < al, "member offset %zu after %zu bytes at %zu", mo, prev, off);
}
VfBody vf_bodies[] = { {"align", body_align, 1}, {"layout", body_layout, 0}, {NULL} };
