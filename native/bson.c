#include "entity_gen.h"
#include "dlite-bson.h"
#include "utils/bson.h"
/* B01: the BSON representation of an instance, and documents as such */
#define SR(n) ((int)vf_range(0, 2*(n)) - (n))
static const char *const tab[] = {"ab#\"/ \\", "a\n\t\r\b\f\"", "\x01\x1f\x7f\\u0041n", "\xc3\xa9z \\\\\"", "null{}[],:"};
static void text(char *s, size_t n) { const char *a = tab[vf_choice(5)]; vf_str(s, n, a); }
static void bval(const GM *g, int i, char *dst)
{
  size_t sz = g->t[i].size;
  switch (g->t[i].type) {
  case dliteStringPtr: { char *s = NULL; size_t n = vf_choice(8); if (!n && g->pnd[i]) n = 1; /* an array of texts keeps NULL as "" */ if (n) { s = vf_alloc(n + (vf_choice(8) ? 0 : 200)); text(s, n - 1); } memcpy(dst, &s, sizeof s); break; }
  case dliteFloat:
    if (sz == 8) { uint64_t u = vf_u64(); double x = (double)SR(1000)/vf_range(1, 100); if (vf_bool()) memcpy(&x, &u, 8); if (!(x == x)) x = 0; memcpy(dst, &x, 8); }
    else { uint32_t u = vf_u64(); float x = (float)SR(1000)/vf_range(1, 100); if (vf_bool()) memcpy(&x, &u, 4); if (!(x == x)) x = 0; memcpy(dst, &x, 4); }
    break;
  default: gen_value(g, i, dst);
  }
}
static DLiteInstance *binst(const GM *g, Model *m, const char *id)
{
  DLiteInstance *inst = gen_inst(g, m, id); size_t k; int i;
  for (i = 0; i < g->np; i++) {
    if (vf_choice(5) == 0 && !(g->t[i].type == dliteStringPtr && g->pnd[i])) continue;
    m->val[i] = vf_alloc(m->n[i]*g->t[i].size);
    for (k = 0; k < m->n[i]; k++) bval(g, i, m->val[i] + k*g->t[i].size);
    VF_CHECK(dlite_instance_set_property_by_index(inst, i, m->val[i]) == 0, "setting property %s failed", propnames[i]);
  }
  return inst;
}
/* the document in a buffer of exactly its size; smaller buffers are respected and give the same size */
static unsigned char *print(const DLiteInstance *inst, size_t *size)
{
  int n, m; size_t sz = 0; unsigned char *doc = dlite_bson_from_instance(inst, &sz), *copy, *cut, *fence;
  VF_CHECK(doc && sz > 5, "cannot write"); n = sz;
  VF_CHECK(bson_docsize(doc) == n, "document of %d bytes says it has %d", n, bson_docsize(doc));
  copy = vf_alloc(n); memcpy(copy, doc, n); free(doc);
  m = vf_choice(n + 1); cut = vf_alloc(m); fence = vf_alloc(m + 1); (void)fence;
  if (m >= 5) { bson_init_document(cut, m); VF_CHECK(dlite_bson_append_instance(cut, m - 5, inst) == n - 5, "another size is reported for a buffer of %d instead of %d bytes", m, n); }
  *size = n; return copy;
}
#define KEEPID(inst) char uuid[DLITE_UUID_LENGTH+1], *uri = inst->uri ? strcpy(vf_alloc(strlen(inst->uri)+1), inst->uri) : NULL; strcpy(uuid, inst->uuid)
static void check_id(const DLiteInstance *inst, const char *uuid, const char *uri)
{
  VF_CHECK(strcmp(inst->uuid, uuid) == 0, "uuid %s instead of %s", inst->uuid, uuid);
  VF_CHECK(uri ? inst->uri && strcmp(inst->uri, uri) == 0 : !inst->uri, "uri %s instead of %s", inst->uri ? inst->uri : "(none)", uri ? uri : "(none)");
}
static void gone(DLiteInstance *inst) { int n = inst->_refcount; VF_CHECK(n == 1, "%d references to the instance", n); dlite_instance_decref(inst); }
static void b_roundtrip(void)
{
  static int ser; char own[60]; size_t n; GM g; Model m; quiet(); gen_meta(&g, vf_choice(5) != 0);
  snprintf(own, sizeof own, vf_bool() ? "http://vf.org/bson/%d" : "5f%06x-0000-4000-8000-000000000000", ser++);
  DLiteInstance *inst = binst(&g, &m, vf_bool() ? own : NULL);
  KEEPID(inst);
  unsigned char *s = print(inst, &n); gone(inst);
  inst = dlite_bson_load_instance(s); VF_CHECK(inst != NULL, "cannot read back");
  check_id(inst, uuid, uri); check_inst(&g, &m, inst, "read back"); gone(inst);
  drop_meta(&g);
}
/* references, relations and a parent */
static void rel(DLiteRelation *r) { char b[8]; memset(r, 0, sizeof *r); text(b, vf_choice(8)); r->s = strdup(b); text(b, vf_choice(8)); r->p = strdup(b); text(b, vf_choice(8)); r->o = strdup(b); if (vf_bool()) { text(b, 1 + vf_choice(7)); r->d = strdup(b); } }
static int eq(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static void b_refs(void)
{
  static int ser; char uri[64]; int i; size_t n = vf_choice(4), sz; char *sh[] = {"N"}; DLiteInstance *t[3], *inst, *par = NULL, *r = NULL, *rr[4] = {0};
  quiet();
  DLiteDimension dim = {"N", "n"};
  DLiteProperty pr[] = { {"r", dliteRef, sizeof(void *), NULL, 0, NULL, "", ""}, {"rr", dliteRef, sizeof(void *), NULL, 1, sh, "", ""},
    {"l", dliteRelation, sizeof(DLiteRelation), NULL, 0, NULL, "", ""}, {"ll", dliteRelation, sizeof(DLiteRelation), NULL, 1, sh, "", ""}, {"z", dliteInt, 4, NULL, 0, NULL, "", ""} };
  sprintf(uri, "http://vf.org/0.1/BR%d", ser++);
  DLiteMeta *meta = dlite_meta_create(uri, "", 1, &dim, 5, pr); VF_CHECK(meta != NULL, "metadata");
  size_t zero = 0;
  for (i = 0; i < 3; i++) { sprintf(uri, "http://vf.org/br%d", ser++); t[i] = dlite_instance_create(meta, &zero, vf_bool() ? uri : NULL); VF_CHECK(t[i] != NULL, "target"); }
  sprintf(uri, "http://vf.org/br%d", ser++);
  inst = dlite_instance_create(meta, &n, uri); VF_CHECK(inst != NULL, "instance");
  if (vf_bool()) { r = t[vf_choice(3)]; dlite_instance_incref(r); VF_CHECK(!dlite_instance_set_property(inst, "r", &r), "set"); }
  for (i = 0; i < (int)n; i++) if (vf_choice(3)) { rr[i] = t[vf_choice(3)]; dlite_instance_incref(rr[i]); }
  if (n) VF_CHECK(!dlite_instance_set_property(inst, "rr", rr), "set");
  DLiteRelation l, ll[4]; int hasl = vf_bool(), hasll = vf_bool(), z = vf_choice(1000);
  rel(&l); for (i = 0; i < 4; i++) rel(&ll[i]);
  if (hasl) VF_CHECK(!dlite_instance_set_property(inst, "l", &l), "set");
  if (hasll && n) VF_CHECK(!dlite_instance_set_property(inst, "ll", ll), "set");
  VF_CHECK(!dlite_instance_set_property(inst, "z", &z), "set");
  if (vf_bool()) { par = t[0]; dlite_instance_freeze(par); VF_CHECK(!dlite_instance_set_parent(inst, par), "parent"); }
  DLiteParent pp; if (par) pp = *inst->_parent;
  unsigned char *s = print(inst, &sz); char uuid[DLITE_UUID_LENGTH+1]; strcpy(uuid, inst->uuid); gone(inst);
  for (i = 0; i < 3; i++) VF_CHECK(t[i]->_refcount == 1, "references after the instance is gone");
  inst = dlite_bson_load_instance(s); VF_CHECK(inst != NULL, "cannot read back");
  check_id(inst, uuid, uri);
  VF_CHECK(*(DLiteInstance **)dlite_instance_get_property(inst, "r") == r, "reference");
  for (i = 0; i < (int)n; i++) VF_CHECK(((DLiteInstance **)dlite_instance_get_property(inst, "rr"))[i] == rr[i], "reference in an array");
  for (i = 0; i < 3; i++) { int k, e = 1 + (r == t[i]); for (k = 0; k < (int)n; k++) e += rr[k] == t[i]; VF_CHECK(t[i]->_refcount == e || (par == t[i] && t[i]->_refcount == e + 1), "%d references, expected %d", t[i]->_refcount, e); }
  DLiteRelation *q = dlite_instance_get_property(inst, "l"), none; memset(&none, 0, sizeof none);
  if (!hasl) l = none;
  VF_CHECK(eq(q->s, l.s) && eq(q->p, l.p) && eq(q->o, l.o) && eq(q->d, l.d), "relation (%s %s %s %s) instead of (%s %s %s %s)", q->s, q->p, q->o, q->d, l.s, l.p, l.o, l.d);
  q = n ? dlite_instance_get_property(inst, "ll") : NULL;
  for (i = 0; i < (int)n; i++) { DLiteRelation *e = hasll ? &ll[i] : &none; VF_CHECK(eq(q[i].s, e->s) && eq(q[i].p, e->p) && eq(q[i].o, e->o) && eq(q[i].d, e->d), "relation %d (%s %s %s %s) instead of (%s %s %s %s)", i, q[i].s, q[i].p, q[i].o, q[i].d, e->s, e->p, e->o, e->d); }
  VF_CHECK(*(int *)dlite_instance_get_property(inst, "z") == z, "integer after relations");
  VF_CHECK(!par == !inst->_parent, "parent %s", par ? "lost" : "appeared");
  if (par) VF_CHECK(!memcmp(inst->_parent->uuid, pp.uuid, DLITE_UUID_LENGTH) && !memcmp(inst->_parent->hash, pp.hash, DLITE_HASH_SIZE), "parent");
  gone(inst);
  for (i = 0; i < 3; i++) { VF_CHECK(t[i]->_refcount == 1, "%d references after the copy is gone", t[i]->_refcount); dlite_instance_decref(t[i]); }
  VF_CHECK(meta->_refcount == 2, "metadata has %d references", meta->_refcount); dlite_meta_decref(meta); dlite_meta_decref(meta);
}
static void same(const char *a, const char *b, const char *what) { VF_CHECK(strcmp(a ? a : "", b ? b : "") == 0, "%s \"%s\" instead of \"%s\"", what, a ? a : "(null)", b ? b : "(null)"); }
static void b_metadata(void)
{
  int i, j, nd = vf_choice(MAXD + 1), np = 1 + vf_choice(MAXP); static int ser; char uri[80]; char *desc = NULL; size_t n;
  quiet();
  DLiteDimension d[MAXD]; DLiteProperty p[MAXP]; char *shape[MAXP][2];
  memset(d, 0, sizeof d); memset(p, 0, sizeof p);
  sprintf(uri, "http://vf.org/0.2/B%d", ser++);
  if (vf_choice(4)) { desc = vf_alloc(12); text(desc, vf_choice(12)); } else desc = "";
  for (i = 0; i < nd; i++) { d[i].name = (char *)dimnames[i]; if (vf_choice(6)) { d[i].description = vf_alloc(10); text(d[i].description, vf_choice(10)); } }
  for (i = 0; i < np; i++) {
    TS t = types[vf_choice(NTYPES)]; if (vf_choice(6) == 0) { t.type = dliteRef; t.size = sizeof(void *); }
    p[i].name = (char *)propnames[i]; p[i].type = t.type; p[i].size = t.size; p[i].ndims = vf_choice(3); p[i].shape = shape[i];
    if (t.type == dliteRef && vf_bool()) p[i].ref = "http://onto-ns.com/meta/0.1/R";
    for (j = 0; j < p[i].ndims; j++) { int e; do e = vf_choice(sizeof(exprs)/sizeof(exprs[0])); while (exprs[e].need > nd); shape[i][j] = (char *)exprs[e].text; }
    if (vf_bool()) { p[i].unit = vf_alloc(8); text(p[i].unit, vf_choice(8)); }
    if (vf_bool()) { p[i].description = vf_alloc(8); text(p[i].description, vf_choice(8)); }
  }
  DLiteMeta *meta = dlite_meta_create(uri, desc, nd, d, np, p);
  VF_CHECK(meta != NULL, "metadata could not be created");
  uint8_t h1[DLITE_HASH_SIZE], h2[DLITE_HASH_SIZE]; VF_CHECK(!dlite_instance_get_hash((DLiteInstance *)meta, h1, sizeof h1), "hash");
  unsigned char *s = print((DLiteInstance *)meta, &n); char uuid[DLITE_UUID_LENGTH+1]; strcpy(uuid, meta->uuid);
  while (meta->_refcount > 1) dlite_meta_decref(meta); dlite_meta_decref(meta);
  DLiteInstance *q = dlite_bson_load_instance(s);
  VF_CHECK(q && dlite_instance_is_meta(q), "cannot read back metadata");
  DLiteMeta *t = (DLiteMeta *)q;
  check_id(q, uuid, uri);
  same(*(char **)dlite_instance_get_property(q, "description"), desc, "description");
  VF_CHECK((int)t->_ndimensions == nd && (int)t->_nproperties == np, "%d dimensions and %d properties", (int)t->_ndimensions, (int)t->_nproperties);
  for (i = 0; i < nd; i++) { same(t->_dimensions[i].name, d[i].name, "dimension name"); same(t->_dimensions[i].description, d[i].description, "dimension description"); }
  for (i = 0; i < np; i++) {
    const DLiteProperty *a = &t->_properties[i];
    same(a->name, p[i].name, "property name"); VF_CHECK(a->type == p[i].type && a->size == p[i].size && a->ndims == p[i].ndims, "property %s: type %d, %zu bytes, %d dimensions", a->name, a->type, a->size, a->ndims);
    for (j = 0; j < a->ndims; j++) same(a->shape[j], p[i].shape[j], "dimension expression");
    same(a->unit, p[i].unit, "unit"); same(a->description, p[i].description, "property description"); same(a->ref, p[i].ref, "reference");
  }
  VF_CHECK(!dlite_instance_get_hash(q, h2, sizeof h2) && !memcmp(h1, h2, sizeof h1), "the hash of the metadata changed");
  DLiteInstance *in = dlite_instance_create(t, (size_t[]){2, 2, 2}, NULL); VF_CHECK(in != NULL, "the metadata can not be used"); dlite_instance_decref(in);
  while (q->_refcount > 1) dlite_instance_decref(q); dlite_instance_decref(q);
}
/* documents: elements come back in order, with name, type and data; nested */
typedef struct E { char name[8]; int type, n; unsigned char data[64]; struct E *sub; int nsub; } E;
static int emit(unsigned char *doc, int size, E *e, int ne)
{
  int i, n = 0, m; unsigned char *sd;
  for (i = 0; i < ne; i++) {
    switch (e[i].type) {
    case bsonDocument: case bsonArray:
      m = bson_begin_subdoc(doc, size - n, e[i].name, &sd); VF_CHECK(m > 0, "begin"); n += m;
      m = emit(sd, size - n, e[i].sub, e[i].nsub); n += m;
      m = bson_end_subdoc(doc, size - n, e[i].type); VF_CHECK(m == 1, "end"); n += m; break;
    case bsonBinary:
      if (e[i].nsub) { int cut = vf_choice(e[i].n + 1);
        m = bson_begin_binary(doc, size - n, e[i].name, &sd); VF_CHECK(m > 0, "begin"); n += m;
        m = bson_append_binary(sd, size - n, cut, e[i].data); VF_CHECK(m == cut, "append"); n += m;
        m = bson_append_binary(sd, size - n, e[i].n - cut, e[i].data + cut); VF_CHECK(m == e[i].n - cut, "append"); n += m;
        m = bson_end_binary(doc, size - n); VF_CHECK(m == 1, "end"); n += m; break; }
      /* fall through */
    default: m = bson_append(doc, size - n, e[i].type, e[i].name, e[i].type == bsonString || e[i].type == bsonBinary || vf_bool() ? e[i].n : -1, e[i].data); VF_CHECK(m > 0, "append"); n += m;
    }
  }
  return n;
}
static E *gen(int depth, int *ne)
{
  static const int ty[] = {bsonDouble, bsonString, bsonBinary, bsonBool, bsonNull, bsonInt32, bsonUInt64, bsonInt64, bsonDocument, bsonArray};
  int i, n = *ne = vf_choice(5); E *e = vf_alloc(sizeof(E)*(n + 1));
  for (i = 0; i < n; i++) {
    memset(&e[i], 0, sizeof e[i]); sprintf(e[i].name, "%.*s%c", (int)vf_choice(5), "name", 'a' + i);
    e[i].type = ty[vf_choice(depth ? 10 : 8)]; vf_bytes(e[i].data, 64);
    switch (e[i].type) {
    case bsonString: e[i].n = vf_choice(60); for (int k = 0; k < 64; k++) if (!e[i].data[k]) e[i].data[k] = 'x'; break;
    case bsonBinary: e[i].n = vf_choice(64); e[i].nsub = vf_bool(); break;
    case bsonBool: e[i].n = 1; e[i].data[0] &= 1; break;
    case bsonNull: e[i].n = 0; break;
    case bsonInt32: e[i].n = 4; break;
    case bsonDocument: case bsonArray: e[i].sub = gen(depth - 1, &e[i].nsub); break;
    default: e[i].n = 8;
    }
  }
  return e;
}
static void check(const unsigned char *doc, const E *e, int ne)
{
  int i, n, type, k; char *name; void *data; unsigned char *end = NULL; BsonError err;
  VF_CHECK(bson_nelements(doc) == ne, "%d elements instead of %d", bson_nelements(doc), ne);
  for (i = 0; i < ne; i++) {
    type = bson_parse(doc, &name, &data, &n, &end);
    VF_CHECK(type == e[i].type && !strcmp(name, e[i].name), "element %d: type %d, name %s", i, type, name);
    for (k = 0; k < 2; k++) {
      if (e[i].sub) check(data, e[i].sub, e[i].nsub);
      else VF_CHECK(n == e[i].n && !memcmp(data, e[i].data, n) && (type != bsonString || !((char *)data)[n]), "data of element %d (type %d): %d bytes, expected %d", i, type, n, e[i].n);
      type = bson_scan(doc, e[i].name, &data, &n); VF_CHECK(type == e[i].type, "scan");
    }
    if (type == bsonInt32) { int32_t x = 0; err = 1; x = bson_scan_int32(doc, name, &err); VF_CHECK(!err && !memcmp(&x, e[i].data, 4), "int32"); }
    if (type == bsonInt64) { int64_t x; err = 1; x = bson_scan_int64(doc, name, &err); VF_CHECK(!err && !memcmp(&x, e[i].data, 8), "int64"); }
    if (type == bsonUInt64) { uint64_t x; err = 1; x = bson_scan_uint64(doc, name, &err); VF_CHECK(!err && !memcmp(&x, e[i].data, 8), "uint64"); }
    if (type == bsonDouble) { double x; err = 1; x = bson_scan_double(doc, name, &err); if (x == x) VF_CHECK(!err && !memcmp(&x, e[i].data, 8), "double"); }
    if (type == bsonString) { err = 1; const char *x = bson_scan_string(doc, name, &err); VF_CHECK(!err && x && (int)strlen(x) == e[i].n, "string"); }
    else { err = 0; VF_CHECK(!bson_scan_string(doc, name, &err) && err == bsonTypeError, "a number is read as a string"); }
    if (type == bsonBool) { err = 1; bool x = bson_scan_bool(doc, name, &err); VF_CHECK(!err && x == e[i].data[0], "bool"); }
  }
  VF_CHECK(bson_parse(doc, &name, &data, &n, &end) == 0, "more elements");
  err = 0; bson_scan_int32(doc, "nosuch", &err); VF_CHECK(err == bsonKeyError, "unknown element found"); VF_CHECK(bson_scan(doc, "nam", NULL, NULL) == 0, "unknown element found");
}
static void b_document(void)
{
  int ne, n, m; E *e; quiet(); e = gen(2, &ne);
  static unsigned char big[20000]; bson_init_document(big, sizeof big); n = 5 + emit(big, sizeof big - 5, e, ne);
  VF_CHECK(bson_docsize(big) == n, "size %d instead of %d", bson_docsize(big), n);
  unsigned char *d = vf_alloc(n); memcpy(d, big, n); check(d, e, ne);
  VF_CHECK(bson_init_document(d, n) == 5, "init"); m = emit(d, n - 5, e, ne); VF_CHECK(m == n - 5, "in a buffer of its size"); check(d, e, ne);
}
VfBody vf_bodies[] = {{"roundtrip", b_roundtrip, 0}, {"refs", b_refs, 0}, {"metadata", b_metadata, 0}, {"document", b_document, 0}, {0}};
