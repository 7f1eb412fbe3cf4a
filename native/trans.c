#include "entity_gen.h"
/* I02: a chain of snapshots keeps exact earlier states, and any change of an ancestor is detected */
#define MAXC 5
static int verify(const DLiteInstance *inst, int rec) { return dlite_instance_verify_hash(inst, NULL, rec); }
/* changes one byte of a stored value behind dlite's back; 0 if the value has none */
static int tamper(const GM *g, const Model *m, DLiteInstance *inst, char **at, char *was)
{
  int i = vf_choice(g->np); size_t sz = g->t[i].size, k; char *p;
  if (!m->n[i]) return 0;
  p = dlite_instance_get_property_by_index(inst, i); k = vf_choice(m->n[i]);
  if (g->t[i].type == dliteStringPtr) { char *s; memcpy(&s, p + k*sz, sizeof s); if (!s || !*s) return 0; p = s + vf_choice(strlen(s)); *at = p; *was = *p; *p = *p == 'q' ? 'r' : 'q'; }
  else { p += k*sz + vf_choice(sz); *at = p; *was = *p; *p ^= 1 << vf_choice(8); }
  return 1;
}
static void body_trans(void)
{
  GM g; Model m, hist[MAXC]; int i, n = 0, k; uint8_t h[DLITE_HASH_SIZE], h2[DLITE_HASH_SIZE];
  static int ser; char uri[40];
  quiet();
  gen_meta(&g, 1);
  sprintf(uri, vf_bool() ? "vf:t%d" : "vf:t%d#frag", ser++);
  DLiteInstance *inst = gen_inst(&g, &m, vf_bool() ? uri : NULL);
  for (k = 1 + vf_choice(8); k; k--) {
    if (vf_bool()) set_prop(&g, &m, inst, vf_choice(g.np));
    else if (n < MAXC) {
      dlite_instance_get_hash(inst, h, DLITE_HASH_SIZE);
      VF_CHECK(dlite_instance_snapshot(inst) == 0, "snapshot failed");
      hist[n++] = m;
      VF_CHECK(inst->_parent && inst->_parent->parent, "snapshot set no parent");
      VF_CHECK(memcmp(inst->_parent->hash, h, DLITE_HASH_SIZE) == 0, "the recorded hash is not that of the state that was snapshotted");
      VF_CHECK(strcmp(inst->_parent->uuid, inst->_parent->parent->uuid) == 0, "recorded parent uuid");
    }
    check_inst(&g, &m, inst, "transaction head");
    VF_CHECK(!dlite_instance_is_frozen(inst), "snapshotting froze the head");
    for (i = 0; i < n; i++) {
      const DLiteInstance *s = dlite_instance_get_snapshot(inst, n - i);
      VF_CHECK(s && dlite_instance_is_frozen(s), "snapshot %d is not frozen", i);
      VF_CHECK(s->_refcount == 1, "snapshot %d has %d references", i, s->_refcount);
      check_inst(&g, &hist[i], s, "snapshot");
      VF_CHECK(dlite_instance_set_property_by_index((DLiteInstance *)s, 0, m.val[0]) != 0, "a snapshot was changed");
    }
    VF_CHECK(dlite_instance_get_snapshot(inst, 0) == inst, "snapshot 0 is the instance");
    VF_CHECK(dlite_instance_get_snapshot(inst, n + 1) == NULL, "snapshot beyond the first");
    VF_CHECK(verify(inst, 1) == 0 && verify(inst, 0) == 0, "an untouched transaction does not verify");
    dlite_instance_get_hash(inst, h, DLITE_HASH_SIZE);
    VF_CHECK(dlite_instance_verify_hash(inst, h, 1) == 0 && dlite_instance_verify_hash(inst, h, 0) == 0, "an instance does not verify against its own hash");
    h[vf_choice(DLITE_HASH_SIZE)] ^= 1 << vf_choice(8);
    VF_CHECK(dlite_instance_verify_hash(inst, h, 1) != 0 && dlite_instance_verify_hash(inst, h, 0) != 0, "a wrong hash was accepted");
  }
  /* tampering */
  for (k = 3; k; k--) {
    char *at, was; int depth = vf_choice(n + 1);
    DLiteInstance *v = (DLiteInstance *)dlite_instance_get_snapshot(inst, depth);
    dlite_instance_get_hash(inst, h, DLITE_HASH_SIZE);
    switch (vf_choice(5)) {
    case 0: case 1: if (!tamper(&g, depth ? &hist[n-depth] : &m, v, &at, &was)) continue; break;
    case 2: if (!g.nd) continue; { at = (char *)&DLITE_DIM(v, vf_choice(g.nd)); if (*at < 1) continue;
        /* a smaller dimension only, so that nothing is read out of bounds: the arrays keep their shapes */ was = *at; (*at)--; break; }
    case 3: if (!v->_parent) continue; at = (char *)v->_parent->hash + vf_choice(DLITE_HASH_SIZE); was = *at; *at ^= 1 << vf_choice(8); break;
    case 4: if (!v->_parent) continue; at = v->_parent->uuid + vf_choice(DLITE_UUID_LENGTH); was = *at; *at = *at == 'e' ? 'd' : 'e'; break;
    }
    VF_CHECK(dlite_instance_get_hash(inst, h2, DLITE_HASH_SIZE) == 0, "hash");
    if (depth == 0) VF_CHECK(memcmp(h, h2, DLITE_HASH_SIZE) != 0, "a change of the instance does not change its hash");
    else VF_CHECK(verify(inst, 1) != 0, "a changed ancestor (generation %d of %d) is not detected", depth, n);
    if (depth == 1) VF_CHECK(verify(inst, 0) != 0, "a changed parent is not detected by the non-recursive check");
    *at = was;
    VF_CHECK(verify(inst, 1) == 0, "the restored transaction does not verify");
  }
  /* parents: only frozen ones, and the reference is handed over */
  if (n) {
    DLiteInstance *p = (DLiteInstance *)inst->_parent->parent;
    VF_CHECK(dlite_instance_set_parent(inst, p) == 0 && p->_refcount == 1, "setting the same parent anew");
    DLiteInstance *q = dlite_instance_create(g.meta, m.dim, NULL);
    VF_CHECK(dlite_instance_set_parent(inst, q) != 0 && inst->_parent->parent == p && p->_refcount == 1, "a mutable parent");
    dlite_instance_freeze(q);
    dlite_instance_incref(p);
    VF_CHECK(dlite_instance_set_parent(inst, q) == 0 && inst->_parent->parent == q && p->_refcount == 1 && q->_refcount == 2, "replacing a parent");
    VF_CHECK(verify(inst, 1) == 0, "transaction with replaced parent");
    dlite_instance_decref(p); dlite_instance_decref(q);
  }
  dlite_instance_decref(inst);
  drop_meta(&g);      /* also checks that no snapshot outlived its head */
}
/* the hash of metadata covers every part of its dimensions and properties */
static void body_meta(void)
{
  GM g; uint8_t h[DLITE_HASH_SIZE], h2[DLITE_HASH_SIZE]; char *at; int i, j; size_t z;
  quiet();
  gen_meta(&g, 1);
  DLiteInstance *mi = (DLiteInstance *)g.meta; DLiteProperty *p = g.meta->_properties + (i = vf_choice(g.np)); DLiteDimension *d = g.nd ? g.meta->_dimensions + vf_choice(g.nd) : NULL;
  VF_CHECK(dlite_instance_get_hash(mi, h, DLITE_HASH_SIZE) == 0, "hash");
  const char *what = "";
  p->unit = p->unit && *p->unit ? p->unit : (free(p->unit), strdup("kg"));
  dlite_instance_get_hash(mi, h, DLITE_HASH_SIZE);
  switch (vf_choice(8)) {
  case 0: at = p->name + vf_choice(strlen(p->name)); *at ^= 1; what = "property name"; break;
  case 1: at = p->unit + vf_choice(strlen(p->unit)); *at ^= 1; what = "unit"; break;
  case 2: at = p->description + vf_choice(strlen(p->description)); *at ^= 1; what = "property description"; break;
  case 3: if (!p->ndims) goto end; j = vf_choice(p->ndims); at = p->shape[j] + vf_choice(strlen(p->shape[j])); *at ^= 1; what = "shape"; break;
  case 4: if (dlite_type_is_allocated(p->type)) goto end; at = (char *)&p->size; *at ^= 1 << vf_choice(8); what = "size"; break;
  case 5: if (dlite_type_is_allocated(p->type)) goto end; at = (char *)&p->type; *at = p->type == dliteBlob ? dliteInt : dliteBlob; what = "type"; break;
  case 6: if (!d) goto end; at = d->name + vf_choice(strlen(d->name)); *at ^= 1; what = "dimension name"; break;
  case 7: if (!d || !d->description) goto end; at = d->description + vf_choice(strlen(d->description)); *at ^= 1; what = "dimension description"; break;
  }
  { char now = *at; VF_CHECK(dlite_instance_get_hash(mi, h2, DLITE_HASH_SIZE) == 0 && memcmp(h, h2, DLITE_HASH_SIZE), "a changed %s of metadata does not change its hash", what); (void)now; }
  if (!strcmp(what, "size")) p->size = g.t[i].size; if (!strcmp(what, "type")) p->type = g.t[i].type;
end:
  drop_meta(&g);
}
VfBody vf_bodies[] = { {"trans", body_trans, 0}, {"meta", body_meta, 0}, {NULL} };
