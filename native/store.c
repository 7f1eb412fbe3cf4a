#include "entity_gen.h"
/* I03: model of the instance store */
#define NI 4
static void body_store(void)
{
  static int ser; int i, k; char id[NI][48], uuid[NI][DLITE_UUID_LENGTH+1], muri[2][64];
  DLiteInstance *p[NI] = {0}; int ref[NI] = {0}, mi[NI], live[2] = {0, 0}, extra[2] = {0, 0}; int d[NI], tgt[NI];
  DLiteMeta *meta[2];
  char *sh[] = {"N"};
  quiet();
  DLiteDimension dim = {"N", "n"};
  DLiteProperty pr[] = { {"a", dliteInt, 4, NULL, 1, sh, "", ""}, {"r", dliteRef, sizeof(void *), NULL, 0, NULL, "", ""} };
  for (k = 0; k < 2; k++) {
    sprintf(muri[k], "http://vf.org/0.1/S%d", ser++);
    meta[k] = dlite_meta_create(muri[k], "", 1, &dim, 2, pr);
    VF_CHECK(meta[k] && meta[k]->_refcount == 2, "metadata: owner and store hold one reference each");
  }
  for (i = 0; i < NI; i++) { sprintf(id[i], "vf:s%d", ser++); if (i == 3) uuid4_generate(id[i]); VF_CHECK(dlite_get_uuid(uuid[i], id[i]) >= 0, "uuid"); tgt[i] = -1; }
  for (k = 4 + vf_choice(24); k; k--) {
    i = vf_choice(NI);
    const char *name = vf_bool() ? id[i] : uuid[i];
    DLiteInstance *q; size_t n[1];
    switch (vf_choice(9)) {
    case 0: case 1:                       /* create, or a new reference if it exists */
      { int x = vf_choice(2); n[0] = vf_choice(3);
        q = dlite_instance_create(meta[x], n, id[i]);
        if (!ref[i]) { VF_CHECK(q && q->_refcount == 1, "creation"); p[i] = q; ref[i] = 1; mi[i] = x; d[i] = n[0]; live[x]++; tgt[i] = -1;
          VF_CHECK(!strcmp(q->uuid, uuid[i]) && q->meta == meta[x], "identity of the created instance"); }
        else if (x == mi[i] && (int)n[0] == d[i]) { VF_CHECK(q == p[i], "creating an existing id gives another instance"); ref[i]++; }
        else VF_CHECK(q == NULL, "an existing id was created anew with other %s", x == mi[i] ? "dimensions" : "metadata");
        break; }
    case 2: q = dlite_instance_has(name, 0); VF_CHECK(q == (ref[i] ? p[i] : NULL), "has(%s): %s", name, ref[i] ? "live instance not found" : "found a dead instance"); break;
    case 3: if (!ref[i]) break; q = dlite_instance_get(name); VF_CHECK(q == p[i], "get(%s)", name); ref[i]++; break;
    case 4: if (!ref[i]) break; dlite_instance_incref(p[i]); ref[i]++; break;
    case 5: case 6:                       /* release a reference that is not held by another instance */
      { int held = 0; for (int j = 0; j < NI; j++) held += tgt[j] == i; if (ref[i] - held <= 0) break; }
      { int r = dlite_instance_decref(p[i]); ref[i]--;
        VF_CHECK(r == ref[i], "decref returned %d, expected %d", r, ref[i]);
        int j = i; while (j >= 0 && !ref[j]) { live[mi[j]]--; p[j] = NULL; int t = tgt[j]; tgt[j] = -1; if (t >= 0) ref[t]--; j = t; }
        break; }
    case 7:                               /* a copy has its own id and does not disturb the original */
      if (!ref[i]) break;
      q = dlite_instance_copy(p[i], NULL);
      VF_CHECK(q && q != p[i] && q->_refcount == 1 && strcmp(q->uuid, uuid[i]) && q->meta == p[i]->meta, "copy");
      VF_CHECK(dlite_instance_has(q->uuid, 0) == q && meta[mi[i]]->_refcount == 2 + extra[mi[i]] + live[mi[i]] + 1, "copy in the store");
      VF_CHECK(dlite_instance_decref(q) == 0, "freeing the copy"); break;
    case 8:                               /* let i refer to j: the property takes over a reference */
      { int j = vf_choice(NI); if (!ref[i] || !ref[j] || i <= j || tgt[i] >= 0) break;
        dlite_instance_incref(p[j]); VF_CHECK(dlite_instance_set_property(p[i], "r", &p[j]) == 0, "set reference"); tgt[i] = j; ref[j]++; break; }
    }
    for (i = 0; i < NI; i++) {
      q = dlite_instance_has(uuid[i], 0);
      VF_CHECK(q == (ref[i] ? p[i] : NULL), "instance %d with %d references is %sin the store", i, ref[i], q ? "" : "not ");
      if (ref[i]) VF_CHECK(q->_refcount == ref[i], "instance %d has %d references, expected %d", i, q->_refcount, ref[i]);
    }
    for (i = 0; i < 2; i++) VF_CHECK(meta[i]->_refcount == 2 + extra[i] + live[i], "metadata has %d references, expected %d (%d instances)", meta[i]->_refcount, 2 + extra[i] + live[i], live[i]);
    if (vf_choice(4) == 0) {              /* listing */
      int nu, j, found; char **u = dlite_istore_get_uuids(&nu);
      for (i = 0; i < NI; i++) { for (j = found = 0; j < nu; j++) found += !strcmp(u[j], uuid[i]); VF_CHECK(found == (ref[i] > 0), "uuid listed %d times", found); }
      for (j = 0; j < nu; j++) free(u[j]); free(u);
    }
    if (vf_choice(6) == 0) { i = vf_choice(2); DLiteInstance *m2 = dlite_instance_get(muri[i]); VF_CHECK(m2 == (DLiteInstance *)meta[i], "metadata by uri"); extra[i]++; }
  }
  for (;;) { for (i = NI-1; i >= 0 && !ref[i]; i--); if (i < 0) break; dlite_instance_decref(p[i]); ref[i]--;
    int j = i; while (j >= 0 && !ref[j]) { live[mi[j]]--; int t = tgt[j]; tgt[j] = -1; if (t >= 0) ref[t]--; j = t; } }
  for (i = 0; i < 2; i++) {
    VF_CHECK(meta[i]->_refcount == 2 + extra[i], "metadata has %d references after its instances are gone, expected %d", meta[i]->_refcount, 2 + extra[i]);
    while (extra[i]-- > 0) dlite_meta_decref(meta[i]);
    dlite_meta_decref(meta[i]); VF_CHECK(dlite_instance_has(muri[i], 0) != NULL, "the store lost metadata"); dlite_meta_decref(meta[i]);
    VF_CHECK(dlite_instance_has(muri[i], 0) == NULL, "metadata without references is still in the store");
  }
}
/* parents, references, copies and snapshots: every edge holds exactly one reference */
#define NK 10
typedef struct { DLiteInstance *p; int own, par, r, rr[2], val, frozen; } Kin;
static Kin K[NK]; static int nk;
static int incoming(int i) { int j, n = 0; for (j = 0; j < nk; j++) if (K[j].p) n += (K[j].par == i) + (K[j].r == i) + (K[j].rr[0] == i) + (K[j].rr[1] == i); return n; }
static void bury(void)            /* instances nobody refers to any more */
{
  int i, again;
  do for (i = again = 0; i < nk; i++) if (K[i].p && K[i].own + incoming(i) == 0) { K[i].p = NULL; K[i].par = K[i].r = K[i].rr[0] = K[i].rr[1] = -1; again = 1; } while (again);
}
static void clone(int i, DLiteInstance *q, int own) { K[nk] = K[i]; K[nk].p = q; K[nk].own = own; K[nk].frozen = 0; nk++; }
static void body_kin(void)
{
  static int ser; char uri[64], id[64]; int i, j, k, r; char *sh[] = {"N"}; size_t n = 2; DLiteInstance *q, *v[2];
  quiet();
  DLiteDimension dim = {"N", "n"};
  DLiteProperty pr[] = { {"a", dliteInt, 4, NULL, 0, NULL, "", ""}, {"r", dliteRef, sizeof(void *), NULL, 0, NULL, "", ""}, {"rr", dliteRef, sizeof(void *), NULL, 1, sh, "", ""} };
  sprintf(uri, "http://vf.org/0.1/K%d", ser++);
  DLiteMeta *meta = dlite_meta_create(uri, "", 1, &dim, 3, pr);
  nk = 0;
  for (k = 3 + vf_choice(25); k; k--) {
    i = nk ? (int)vf_choice(nk) : 0;
    switch (nk ? vf_choice(10) : 0) {
    case 0: case 1:
      if (nk >= NK) break;
      sprintf(id, vf_bool() ? "vf kin %d" : "http://vf.org/kin/%d", ser++);
      q = dlite_instance_create(meta, &n, vf_bool() ? id : NULL); VF_CHECK(q && q->_refcount == 1, "creation");
      K[nk].p = q; K[nk].own = 1; K[nk].par = K[nk].r = K[nk].rr[0] = K[nk].rr[1] = -1; K[nk].val = 0; K[nk].frozen = 0; nk++; break;
    case 2: case 3:               /* copy, to no id, a new one or an existing one */
      if (nk >= NK || !K[i].p) break;
      j = vf_choice(4); sprintf(id, "vf kin %d", ser++);
      if (j == 3) { q = dlite_instance_copy(K[i].p, K[vf_choice(2) ? i : 0].p ? K[i].p->uuid : id); if (q && strcmp(q->uuid, K[i].p->uuid) == 0) VF_CHECK(0, "a copy replaced an existing instance"); if (q) clone(i, q, 1); break; }
      q = dlite_instance_copy(K[i].p, j ? id : NULL); VF_CHECK(q != NULL && q != K[i].p, "copy"); clone(i, q, 1);
      VF_CHECK(!q->_parent == !K[i].p->_parent && (!q->_parent || !memcmp(q->_parent->uuid, K[i].p->_parent->uuid, DLITE_UUID_LENGTH)), "parent of a copy"); break;
    case 4: if (!K[i].p) break; dlite_instance_freeze(K[i].p); K[i].frozen = 1; break;
    case 5:
      j = vf_choice(nk); if (!K[i].p || !K[j].p || j >= i) break;
      r = dlite_instance_set_parent(K[i].p, K[j].p);
      VF_CHECK((r == 0) == (!K[i].frozen && K[j].frozen), "set_parent returned %d", r);
      if (!r) K[i].par = j;
      break;
    case 6: case 7:
      { j = (int)vf_choice(nk + 1) - 1; int j2 = (int)vf_choice(nk + 1) - 1; if (!K[i].p || j >= i || j2 >= i || (j >= 0 && !K[j].p) || (j2 >= 0 && !K[j2].p)) break;
        if (K[i].frozen) { v[0] = v[1] = NULL; VF_CHECK(dlite_instance_set_property(K[i].p, vf_bool() ? "r" : "rr", v) != 0, "a frozen instance was changed"); break; }
        if (K[i].r >= 0 || K[i].rr[0] >= 0 || K[i].rr[1] >= 0) break;   /* known finding: a replaced reference is not released */
        v[0] = j >= 0 ? K[j].p : NULL; v[1] = j2 >= 0 ? K[j2].p : NULL;
        if (v[0]) dlite_instance_incref(v[0]);
        if (vf_bool()) { VF_CHECK(!dlite_instance_set_property(K[i].p, "r", v), "set r"); K[i].r = j; }
        else { if (v[1]) dlite_instance_incref(v[1]); VF_CHECK(!dlite_instance_set_property(K[i].p, "rr", v), "set rr"); K[i].rr[0] = j; K[i].rr[1] = j2; }
        break; }
    case 8:
      if (!K[i].p || nk >= NK) break;
      r = dlite_instance_snapshot(K[i].p); VF_CHECK((r == 0) == !K[i].frozen, "snapshot returned %d", r);
      if (!r) { clone(i, (DLiteInstance *)dlite_instance_get_snapshot(K[i].p, 1), 0); K[nk-1].frozen = 1; K[i].par = nk-1; VF_CHECK(K[nk-1].p != NULL, "no snapshot"); }
      break;
    case 9:
      if (!K[i].p) break;
      if (K[i].own && vf_choice(3)) { K[i].own--; int c = K[i].own + incoming(i); r = dlite_instance_decref(K[i].p); VF_CHECK(r == c, "decref returned %d, expected %d", r, c); }
      else if (!K[i].frozen) { int x = vf_choice(100); VF_CHECK(!dlite_instance_set_property(K[i].p, "a", &x), "set a"); K[i].val = x; }
      break;
    }
    bury();
    for (i = j = 0; i < nk; i++) if (K[i].p) {
      j++;
      VF_CHECK(K[i].p->_refcount == K[i].own + incoming(i), "instance %d has %d references, expected %d", i, K[i].p->_refcount, K[i].own + incoming(i));
      VF_CHECK(*(int *)dlite_instance_get_property(K[i].p, "a") == K[i].val, "value of instance %d", i);
      VF_CHECK(dlite_instance_has(K[i].p->uuid, 0) == K[i].p, "instance %d is not in the store", i);
    }
    VF_CHECK(meta->_refcount == 2 + j, "metadata has %d references, expected %d", meta->_refcount, 2 + j);
  }
  for (i = nk - 1; i >= 0; i--) while (K[i].p && K[i].own) { K[i].own--; dlite_instance_decref(K[i].p); bury(); }
  VF_CHECK(meta->_refcount == 2, "metadata has %d references after its instances are gone", meta->_refcount);
  dlite_meta_decref(meta); dlite_meta_decref(meta);
}
VfBody vf_bodies[] = { {"store", body_store, 0}, {"kin", body_kin, 0}, {NULL} };
