#include "entity_gen.h"
#include "dlite-collection.h"
#include "dlite-json.h"
#include "dlite-storage-plugins.h"
/* K01: model of a collection: a set of relations, a map from labels to counted references */
typedef struct { char s[12], p[12], o[12]; const char *d; } Rel;
#define NR 40
#define NI 4
#define NL 4
static const char *const DT[] = {NULL, "xsd:integer", "@en", "http://ex.org/t"};
static const char *const PR[] = {"knows", "likes", "http://x/p"};
static const char *const OB[] = {"s:0", "s:1", "o", "17", "o 2"};
static int eq(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
/* d: NULL anything, "" non-literals */
static int matches(const Rel *r, const char *s, const char *p, const char *o, const char *d)
{ return (!s || eq(s, r->s)) && (!p || eq(p, r->p)) && (!o || eq(o, r->o)) && (!d || (*d ? eq(d, r->d) : !r->d)); }
static Rel rel[NR]; static int nrel;
static int find(const Rel *x) { int i; for (i = 0; i < nrel; i++) if (eq(rel[i].s, x->s) && eq(rel[i].p, x->p) && eq(rel[i].o, x->o) && eq(rel[i].d, x->d)) return i; return -1; }
static void randrel(Rel *r)
{ sprintf(r->s, "s:%d", (int)vf_choice(3)); strcpy(r->p, PR[vf_choice(3)]); r->d = DT[vf_choice(4)]; strcpy(r->o, r->d ? OB[vf_choice(5)] : OB[vf_choice(3)]); }
static DLiteInstance *inst[NI]; static int ref[NI], at[NL], meta_of[NI]; static DLiteMeta *meta[2];
static const char *const LB[NL] = {"la", "l:b", "http://x/lc", "ld"};
/* every relation the collection should hold, seen through its iterator */
static int total(void) { int l, n = nrel; for (l = 0; l < NL; l++) n += at[l] >= 0 ? 3 : 0; return n; }
static void full(DLiteCollection *c)
{
  DLiteCollectionState st; const DLiteRelation *r; int i, l, n = 0, seen[NR] = {0}, lab[NL] = {0};
  dlite_collection_init_state(c, &st);
  while ((r = dlite_collection_find(c, &st, NULL, NULL, NULL, NULL))) {
    n++;
    if (r->p[0] == '_') {
      for (l = 0; l < NL && strcmp(LB[l], r->s); l++);
      VF_CHECK(l < NL && at[l] >= 0, "relation %s %s %s of a label that is not in the collection", r->s, r->p, r->o);
      const DLiteInstance *q = inst[at[l]];
      if (!strcmp(r->p, "_is-a")) { VF_CHECK(!strcmp(r->o, "Instance") && !r->d, "_is-a"); lab[l] |= 1; }
      else if (!strcmp(r->p, "_has-uuid")) { VF_CHECK(!strcmp(r->o, q->uuid) && eq(r->d, "xsd:anyURI"), "_has-uuid %s %s", r->o, r->d); lab[l] |= 2; }
      else if (!strcmp(r->p, "_has-meta")) { VF_CHECK(!strcmp(r->o, q->meta->uri) && !r->d, "_has-meta"); lab[l] |= 4; }
      else VF_CHECK(0, "unknown predicate %s", r->p);
    } else {
      Rel x; VF_CHECK(strlen(r->s) < 12 && strlen(r->p) < 12 && strlen(r->o) < 12, "unknown relation"); strcpy(x.s, r->s); strcpy(x.p, r->p); strcpy(x.o, r->o); x.d = r->d;
      i = find(&x); VF_CHECK(i >= 0, "relation (%s %s %s %s) was not added", r->s, r->p, r->o, r->d ? r->d : "-");
      VF_CHECK(!seen[i], "a relation is listed twice"); seen[i] = 1;
    }
  }
  dlite_collection_deinit_state(&st);
  VF_CHECK(n == total(), "the collection has %d relations, expected %d", n, total());
  for (l = 0; l < NL; l++) VF_CHECK(lab[l] == (at[l] >= 0 ? 7 : 0), "relations of label %s: %d", LB[l], lab[l]);
}
static int held(int i) { int l, n = 0; for (l = 0; l < NL; l++) n += at[l] == i; return n; }
static void counts(DLiteCollection *c)
{
  int i, l, n = 0;
  for (i = 0; i < NI; i++) VF_CHECK(inst[i]->_refcount == ref[i] + held(i), "instance %d has %d references, expected %d", i, inst[i]->_refcount, ref[i] + held(i));
  for (l = 0; l < NL; l++) n += at[l] >= 0;
  VF_CHECK(dlite_collection_count(c) == n, "%d instances counted, expected %d", dlite_collection_count(c), n);
}
static void fill(DLiteCollection *c, const Rel *r) { VF_CHECK(!dlite_collection_add_relation(c, r->s, r->p, r->o, r->d), "relation could not be added"); if (find(r) < 0) rel[nrel++] = *r; }
static void hashed(DLiteCollection *c, uint8_t *h) { VF_CHECK(!dlite_instance_get_hash((DLiteInstance *)c, h, DLITE_HASH_SIZE), "no hash"); }
/* the same members and relations, entered in another order */
static void hash_of_content(DLiteCollection *c)
{
  uint8_t h1[DLITE_HASH_SIZE], h2[DLITE_HASH_SIZE]; int i, j, l, k, perm[NR + NL], n = nrel + NL; DLiteCollection *d = dlite_collection_create(NULL); Rel x;
  VF_CHECK(d != NULL, "creation");
  for (i = 0; i < n; i++) { j = vf_choice(i + 1); perm[i] = perm[j]; perm[j] = i; }
  for (k = 0; k < n; k++) {
    i = perm[k];
    if (i < nrel) VF_CHECK(!dlite_collection_add_relation(d, rel[i].s, rel[i].p, rel[i].o, rel[i].d), "add");
    else { l = i - nrel; if (at[l] >= 0) { VF_CHECK(!dlite_collection_add(d, LB[l], inst[at[l]]), "add"); ref[at[l]]++; } }
  }
  hashed(c, h1); hashed(d, h2);
  VF_CHECK(!memcmp(h1, h2, sizeof h1), "the hash depends on the order in which relations were added");
  counts(c);
  randrel(&x); strcpy(x.s, "s:9");
  VF_CHECK(!dlite_collection_add_relation(d, x.s, x.p, x.o, x.d), "add"); hashed(d, h2);
  VF_CHECK(memcmp(h1, h2, sizeof h1), "the hash does not depend on a relation");
  VF_CHECK(dlite_collection_remove_relations(d, x.s, NULL, NULL, NULL) == 1, "remove"); hashed(d, h2);
  VF_CHECK(!memcmp(h1, h2, sizeof h1), "the hash does not come back");
  if (nrel) {   /* change one word of one relation, keeping its length */
    i = vf_choice(nrel); x = rel[i];
    VF_CHECK(dlite_collection_remove_relations(d, x.s, x.p, x.o, x.d ? x.d : "") == 1, "remove one relation");
    switch (vf_choice(3)) { case 0: x.s[strlen(x.s)-1] = 'z'; break; case 1: x.p[strlen(x.p)-1] = 'z'; break; default: x.o[strlen(x.o)-1] = 'z'; }
    VF_CHECK(!dlite_collection_add_relation(d, x.s, x.p, x.o, x.d), "add"); hashed(d, h2);
    VF_CHECK(memcmp(h1, h2, sizeof h1), "the hash does not depend on relation %d of %d", i, nrel);
    VF_CHECK(dlite_collection_remove_relations(d, x.s, x.p, x.o, x.d ? x.d : "") == 1, "remove");
    VF_CHECK(!dlite_collection_add_relation(d, rel[i].s, rel[i].p, rel[i].o, rel[i].d), "add");
  }
  for (l = 0; l < NL; l++) if (at[l] >= 0) {      /* another member with the same label */
    for (i = 0; i < NI && (i == at[l] || meta_of[i] != meta_of[at[l]]); i++);
    if (i == NI) break;
    VF_CHECK(!dlite_collection_remove(d, LB[l]), "remove member"); ref[at[l]]--;
    VF_CHECK(!dlite_collection_add(d, LB[l], inst[i]), "add member"); ref[i]++;
    hashed(d, h2); VF_CHECK(memcmp(h1, h2, sizeof h1), "the hash does not depend on which instance is a member");
    VF_CHECK(!dlite_collection_remove(d, LB[l]), "remove member"); ref[i]--;
    VF_CHECK(!dlite_collection_add(d, LB[l], inst[at[l]]), "add member"); ref[at[l]]++;
    int v, old = *(int *)dlite_instance_get_property(inst[at[l]], "a"); v = old + 1;         /* the same member with another value */
    VF_CHECK(!dlite_instance_set_property(inst[at[l]], "a", &v), "set"); hashed(d, h2);
    VF_CHECK(memcmp(h1, h2, sizeof h1), "the hash does not depend on the value of a member");
    VF_CHECK(!dlite_instance_set_property(inst[at[l]], "a", &old), "set"); hashed(d, h2);
    VF_CHECK(!memcmp(h1, h2, sizeof h1), "the hash does not come back");
    break;
  }
  dlite_collection_decref(d);
  for (l = 0; l < NL; l++) if (at[l] >= 0) ref[at[l]]--;
  counts(c);
}
static void ops(DLiteCollection *c, int k)
{
  static int ser; int i, l, n, r; DLiteCollectionState st; const DLiteRelation *t; DLiteInstance *q;
  for (; k; k--) {
    l = vf_choice(NL); i = vf_choice(NI);
    switch (vf_choice(14)) {
    case 0: case 1: r = dlite_collection_add(c, LB[l], inst[i]); VF_CHECK(!r == (at[l] < 0), "add returned %d", r); if (!r) at[l] = i; break;
    case 2: dlite_instance_incref(inst[i]); r = dlite_collection_add_new(c, LB[l], inst[i]); VF_CHECK(!r == (at[l] < 0), "add_new returned %d", r); if (!r) at[l] = i; else dlite_instance_decref(inst[i]); break;
    case 3: case 4: r = dlite_collection_remove(c, LB[l]); VF_CHECK(!r == (at[l] >= 0), "remove returned %d", r); at[l] = -1; break;
    case 5: q = (DLiteInstance *)dlite_collection_get(c, LB[l]); VF_CHECK(q == (at[l] >= 0 ? inst[at[l]] : NULL), "get(%s)", LB[l]); VF_CHECK(dlite_collection_has(c, LB[l]) == (at[l] >= 0), "has(%s)", LB[l]); break;
    case 6: q = dlite_collection_get_new(c, LB[l], NULL); VF_CHECK(q == (at[l] >= 0 ? inst[at[l]] : NULL), "get_new(%s)", LB[l]); if (q) ref[at[l]]++; counts(c); if (q) { ref[at[l]]--; dlite_instance_decref(q); } break;
    case 7: VF_CHECK(dlite_collection_has_id(c, vf_bool() || !inst[i]->uri ? inst[i]->uuid : inst[i]->uri) == (held(i) > 0), "has_id");
      q = (DLiteInstance *)dlite_collection_get_id(c, inst[i]->uuid); VF_CHECK(q == (held(i) ? inst[i] : NULL), "get_id");
      if (q) { VF_CHECK(q->_refcount == ref[i] + held(i) || q->_refcount == ref[i] + held(i) + 1, "get_id: %d references", q->_refcount); while (q->_refcount > ref[i] + held(i)) dlite_instance_decref(q); }
      break;
    case 8: { int seen[NI] = {0}, isnew = vf_bool(); dlite_collection_init_state(c, &st);
      while ((q = isnew ? dlite_collection_next_new(c, &st) : dlite_collection_next(c, &st))) { for (i = 0; i < NI && inst[i] != q; i++); VF_CHECK(i < NI, "next: unknown instance"); seen[i]++; if (isnew) { VF_CHECK(q->_refcount == ref[i] + held(i) + 1, "next_new"); dlite_instance_decref(q); } }
      dlite_collection_deinit_state(&st);
      for (i = 0; i < NI; i++) VF_CHECK(seen[i] == held(i), "instance %d visited %d times, is in the collection %d times", i, seen[i], held(i)); break; }
    case 9: case 10: { Rel x; if (nrel < NR - 1) { randrel(&x); fill(c, &x); } break; }
    case 11: case 12: {      /* query, perhaps remove */
      Rel x; randrel(&x); const char *s = vf_bool() ? x.s : NULL, *p = vf_choice(3) ? x.p : NULL, *o = vf_bool() ? x.o : NULL, *d = vf_bool() ? NULL : x.d ? x.d : "";
      if (!p && !s) s = x.s;
      for (i = n = 0; i < nrel; i++) n += matches(&rel[i], s, p, o, d);
      t = dlite_collection_find_first(c, s, p, o, d); VF_CHECK((t != NULL) == (n > 0), "find_first(%s %s %s %s)", s, p, o, d);
      dlite_collection_init_state(c, &st); r = 0;
      while ((t = dlite_collection_find(c, &st, s, p, o, d))) { Rel y; strcpy(y.s, t->s); strcpy(y.p, t->p); strcpy(y.o, t->o); y.d = t->d; VF_CHECK(find(&y) >= 0 && matches(&y, s, p, o, d), "find returned another relation"); r++; }
      dlite_collection_deinit_state(&st); VF_CHECK(r == n, "%d relations found, expected %d", r, n);
      if (vf_bool()) {
        r = dlite_collection_remove_relations(c, s, p, o, d); VF_CHECK(r == n, "(%s %s %s %s): %d relations removed, expected %d", s, p, o, d, r, n);
        for (i = n = 0; i < nrel; i++) if (!matches(&rel[i], s, p, o, d)) rel[n++] = rel[i];
        nrel = n;
      }
      break; }
    case 13: if (vf_choice(3) == 0) hash_of_content(c); else {      /* the relations as a property */
      r = dlite_instance_get_dimension_size_by_index((DLiteInstance *)c, 0); VF_CHECK(r == total(), "dimension is %d, expected %d", r, total());
      VF_CHECK(!dlite_instance_sync_to_properties((DLiteInstance *)c) && (int)c->nrelations == total(), "saving the relations");
      VF_CHECK(!dlite_instance_sync_from_properties((DLiteInstance *)c), "loading the relations");
      break; }
    }
    (void)ser; counts(c); if (vf_choice(3) == 0) full(c);
  }
}
/* a storage that holds the JSON texts of its instances */
static char *text[NI + 1]; static char tid[NI + 1][DLITE_UUID_LENGTH+1]; static int loads[NI + 1];
static DLiteInstance *fake_load(const DLiteStorage *s, const char *id)
{ char u[DLITE_UUID_LENGTH+1]; dlite_get_uuid(u, id); for (int i = 0; i <= NI; i++) if (text[i] && !strcmp(tid[i], u)) { loads[i]++; return dlite_json_sscan(text[i], NULL, NULL); } (void)s; return NULL; }
static int fake_save(DLiteStorage *s, const DLiteInstance *q)
{ int i; (void)s; for (i = 0; i < NI + 1 && text[i] && strcmp(tid[i], q->uuid); i++); VF_CHECK(i <= NI, "more instances saved than there are"); free(text[i]); text[i] = dlite_json_aprint(q, 0, 0); strcpy(tid[i], q->uuid); VF_CHECK(text[i] != NULL, "print"); return 0; }
static void body_collection(void)
{
  static int ser; int i, k, l; char uri[64], id[64], cid[64]; size_t n = 0; DLiteCollection *c;
  quiet();
  DLiteProperty pr[] = { {"a", dliteInt, 4, NULL, 0, NULL, "", ""} };
  for (k = 0; k < 2; k++) { sprintf(uri, "http://vf.org/0.1/C%d", ser++); meta[k] = dlite_meta_create(uri, "", 0, NULL, 1, pr); VF_CHECK(meta[k] != NULL, "metadata"); }
  for (i = 0; i < NI; i++) { meta_of[i] = vf_bool(); sprintf(id, "http://vf.org/c%d", ser++); inst[i] = dlite_instance_create(meta[meta_of[i]], &n, vf_bool() ? id : NULL); VF_CHECK(inst[i] != NULL, "instance"); ref[i] = 1;
    int v = i*100 + 7; dlite_instance_set_property(inst[i], "a", &v); }
  for (l = 0; l < NL; l++) at[l] = -1;
  nrel = 0;
  sprintf(cid, "http://vf.org/coll%d", ser++);
  c = dlite_collection_create(cid); VF_CHECK(c && c->_refcount == 1 && dlite_collection_count(c) == 0, "new collection");
  ops(c, 5 + vf_choice(30));
  full(c); counts(c);
  switch (vf_choice(3)) {
  case 0:             /* freed: every reference is released */
    dlite_collection_decref(c); for (l = 0; l < NL; l++) at[l] = -1;
    VF_CHECK(!dlite_instance_has(cid, 0), "a freed collection is in the store"); break;
  case 1: {           /* printed, freed and read back */
    char *s = dlite_json_aprint((DLiteInstance *)c, vf_choice(3), vf_bool() ? dliteJsonSingle : 0);
    VF_CHECK(s != NULL, "print"); dlite_collection_decref(c);
    VF_CHECK(!dlite_instance_has(cid, 0), "a freed collection is in the store");
    c = (DLiteCollection *)dlite_json_sscan(s, cid, NULL); free(s); VF_CHECK(c != NULL, "the collection could not be read back");
    counts(c); full(c); ops(c, vf_choice(15)); full(c);
    dlite_collection_decref(c); for (l = 0; l < NL; l++) at[l] = -1; break; }
  case 2: {           /* saved with its members, everything freed, loaded again */
    DLiteStoragePlugin api; DLiteStorage s; int had[NI], val[NI], lazy = vf_choice(2); char uu[NI][DLITE_UUID_LENGTH+1], cu[DLITE_UUID_LENGTH+1];
    memset(&api, 0, sizeof api); memset(&s, 0, sizeof s); api.loadInstance = fake_load; api.saveInstance = fake_save; s.api = &api; s.location = "memory"; s.flags = dliteReadable | dliteWritable;
    VF_CHECK(!dlite_collection_save(c, &s), "save");
    strcpy(cu, c->uuid);
    for (i = 0; i < NI; i++) { had[i] = held(i); val[i] = i*100 + 7; strcpy(uu[i], inst[i]->uuid); }
    for (i = 0; i <= NI; i++) loads[i] = 0;
    dlite_collection_decref(c); for (i = 0; i < NI; i++) { VF_CHECK(inst[i]->_refcount == 1, "references after the collection is gone"); }
    if (lazy == 0) {       /* members that are still in memory are shared */
      c = dlite_collection_load(&s, cid, 0); VF_CHECK(c && !strcmp(c->uuid, cu), "load"); full(c); counts(c);
      for (i = 0; i <= NI; i++) VF_CHECK(loads[i] <= 1, "something was loaded twice");
      dlite_collection_decref(c);
    } else {               /* members are loaded */
      for (i = 0; i < NI; i++) dlite_instance_decref(inst[i]);
      c = dlite_collection_load(&s, cid, 0); VF_CHECK(c && !strcmp(c->uuid, cu), "load");
      for (i = 0; i < NI; i++) { inst[i] = dlite_instance_has(uu[i], 0); VF_CHECK((inst[i] != NULL) == (had[i] > 0), "member %d %s loaded", i, inst[i] ? "was" : "was not");
        if (inst[i]) VF_CHECK(*(int *)dlite_instance_get_property(inst[i], "a") == val[i], "value of a loaded member"); else inst[i] = dlite_instance_create(meta[meta_of[i]], &n, uu[i]); dlite_instance_incref(inst[i]); }
      for (l = 0; l < NL; l++) VF_CHECK(dlite_collection_get(c, LB[l]) == (at[l] >= 0 ? inst[at[l]] : NULL), "label %s of the loaded collection", LB[l]);
      VF_CHECK(dlite_collection_get_new(c, "nolabel", NULL) == NULL, "unknown label");
      full(c);
      for (i = 0; i < NI; i++) { if (!had[i]) dlite_instance_decref(inst[i]); VF_CHECK(inst[i]->_refcount == 1 + had[i], "a loaded member has %d references, expected %d", inst[i]->_refcount, 1 + had[i]); }
      dlite_collection_decref(c);
    }
    for (i = 0; i <= NI; i++) { free(text[i]); text[i] = NULL; }
    for (l = 0; l < NL; l++) at[l] = -1;
    break; }
  }
  for (i = 0; i < NI; i++) { VF_CHECK(inst[i]->_refcount == 1, "instance %d has %d references when its collection is gone", i, inst[i]->_refcount); dlite_instance_decref(inst[i]); }
  for (k = 0; k < 2; k++) { VF_CHECK(meta[k]->_refcount == 2, "metadata has %d references at the end", meta[k]->_refcount); dlite_meta_decref(meta[k]); dlite_meta_decref(meta[k]); }
}
VfBody vf_bodies[] = { {"collection", body_collection, 0}, {NULL} };
