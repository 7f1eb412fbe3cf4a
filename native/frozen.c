#include "entity_gen.h"
/* I01: nothing changes a frozen instance, and every attempt reports an error */
static void body_frozen(void)
{
  GM g; Model m; int i, k, dims[MAXD]; uint8_t h0[DLITE_HASH_SIZE], h1[DLITE_HASH_SIZE];
  quiet();
  gen_meta(&g, 1);
  DLiteInstance *inst = gen_inst(&g, &m, NULL), *other = dlite_instance_create(g.meta, m.dim, NULL), *fr = dlite_instance_create(g.meta, m.dim, NULL);
  for (i = 0; i < g.np; i++) set_prop(&g, &m, inst, i);
  dlite_instance_freeze(fr);
  int haspar = vf_bool();
  if (haspar) VF_CHECK(dlite_instance_set_parent(inst, fr) == 0, "set_parent on a mutable instance");
  VF_CHECK(dlite_instance_set_parent(inst, other) != 0, "a mutable parent was accepted");
  VF_CHECK(!dlite_instance_is_frozen(inst), "frozen before freezing");
  dlite_instance_freeze(inst);
  VF_CHECK(dlite_instance_is_frozen(inst), "not frozen");
  VF_CHECK(dlite_instance_get_hash(inst, h0, DLITE_HASH_SIZE) == 0, "hash");
  for (k = 1 + vf_choice(8); k; k--) {
    Model *junk = dup_model(&g, &m);
    int r = 0; const char *what = "";
    i = vf_choice(g.np);
    switch (vf_choice(9)) {
    case 0: gen_prop(&g, junk, i); r = dlite_instance_set_property(inst, propnames[i], junk->val[i]); what = "set_property"; break;
    case 1: gen_prop(&g, junk, i); r = dlite_instance_set_property_by_index(inst, i, junk->val[i]); what = "set_property_by_index"; break;
    case 2: { size_t d[MAXD]; gen_dims(&g, d, junk); for (int j = 0; j < g.nd; j++) dims[j] = vf_bool() ? -1 : (int)d[j]; r = dlite_instance_set_dimension_sizes(inst, dims); what = "set_dimension_sizes"; break; }
    case 3: if (!g.nd) continue; i = vf_choice(g.nd); r = vf_bool() ? dlite_instance_set_dimension_size(inst, dimnames[i], vf_choice(4)) : dlite_instance_set_dimension_size_by_index(inst, i, vf_choice(4)); what = "set_dimension_size"; break;
    case 4: r = dlite_instance_set_parent(inst, vf_bool() ? fr : other); what = "set_parent"; break;
    case 5: r = dlite_instance_snapshot(inst); what = "snapshot"; break;
    case 6: if (!m.n[i]) continue; gen_prop(&g, junk, i); r = dlite_instance_assign_casted_property_by_index(inst, i, g.t[i].type, g.t[i].size, m.shape[i], NULL, junk->val[i], NULL); what = "assign_casted_property"; break;
    case 7: r = dlite_instance_scan_property("[]", inst, propnames[i], 0); if (r > 0) r = 0; what = "scan_property"; break;
    case 8: { static const char *txt[] = {"1", "true", "\"x\"", "[[1,1],[1,1]]", "[1,1]", "null"}; r = dlite_instance_scan_property_by_index(txt[vf_choice(6)], inst, i, 0); if (r > 0) r = 0; what = "scan_property_by_index"; break; }
    }
    VF_CHECK(r != 0, "%s on a frozen instance was not refused", what);
    VF_CHECK(dlite_instance_is_frozen(inst), "%s unfroze the instance", what);
    check_inst(&g, &m, inst, what);
    VF_CHECK(dlite_instance_get_hash(inst, h1, DLITE_HASH_SIZE) == 0 && !memcmp(h0, h1, DLITE_HASH_SIZE), "%s changed the hash of a frozen instance", what);
    VF_CHECK(haspar ? (inst->_parent && inst->_parent->parent == fr) : !inst->_parent, "%s changed the parent of a frozen instance", what);
    VF_CHECK(fr->_refcount == 1 + haspar && other->_refcount == 1 && inst->_refcount == 1, "%s changed a reference count", what);
    if (vf_choice(4) == 0) dlite_instance_freeze(inst);
  }
  /* a copy of a frozen instance can be changed without changing the original */
  DLiteInstance *c = dlite_instance_copy(inst, NULL); Model mc = m;
  VF_CHECK(c && !dlite_instance_is_frozen(c), "copy of a frozen instance is frozen");
  check_inst(&g, &m, c, "copy");
  set_prop(&g, &mc, c, vf_choice(g.np));
  check_inst(&g, &mc, c, "changed copy"); check_inst(&g, &m, inst, "original of a changed copy");
  dlite_instance_decref(c); dlite_instance_decref(inst); dlite_instance_decref(other); dlite_instance_decref(fr);
  drop_meta(&g);
}
VfBody vf_bodies[] = { {"frozen", body_frozen, 0}, {NULL} };
