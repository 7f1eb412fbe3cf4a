/* The JSON representation of an instance: what is printed is well formed and of the reported length, and reading it back gives an equal instance. */
#include "entity_gen.h"
#include "dlite-json.h"
#include "utils/jsmnx.h"
#define SR(n) ((int)vf_range(0, 2*(n)) - (n))
static const char *const tab[] = {"ab#\"/ \\", "a\n\t\r\b\f\"", "\x01\x1f\x7f\\u0041n", "\xc3\xa9z \\\\\"", "null{}[],:"};
static void text(char *s, size_t n) { const char *a = tab[vf_choice(5)]; vf_str(s, n, a); }
/* values the representation has to keep: any text, any finite number */
static void jval(const GM *g, int i, char *dst)
{
  size_t sz = g->t[i].size;
  switch (g->t[i].type) {
  case dliteStringPtr: { char *s = NULL; size_t n = vf_choice(8); if (n) { s = vf_alloc(n + (vf_choice(8) ? 0 : 200)); text(s, n - 1); } memcpy(dst, &s, sizeof s); break; }
  case dliteFixString: memset(dst, 0, sz); text(dst, vf_choice(sz)); break;
  case dliteFloat:
    if (sz == 8) { double x; do switch (vf_choice(3)) { case 0: { uint64_t u = vf_u64(); memcpy(&x, &u, 8); break; } case 1: x = (double)SR(1000)/vf_range(1, 100); break; default: x = SR(9); } while (!(x - x == 0)); memcpy(dst, &x, 8); }
    else { float x; do switch (vf_choice(3)) { case 0: { uint32_t u = vf_u64(); memcpy(&x, &u, 4); break; } case 1: x = (float)SR(1000)/vf_range(1, 100); break; default: x = SR(9); } while (!(x - x == 0)); memcpy(dst, &x, 4); }
    break;
  default: gen_value(g, i, dst);
  }
}
static DLiteInstance *jinst(const GM *g, Model *m, const char *id)
{
  DLiteInstance *inst = gen_inst(g, m, id);
  for (int i = 0; i < g->np; i++) {
    if (!vf_choice(5)) continue;
    m->val[i] = vf_alloc(m->n[i]*g->t[i].size);
    for (size_t k = 0; k < m->n[i]; k++) jval(g, i, m->val[i] + k*g->t[i].size);
    VF_CHECK(dlite_instance_set_property_by_index(inst, i, m->val[i]) == 0, "setting property %s failed", propnames[i]);
  }
  return inst;
}
/* prints to exact buffers and checks the size contract; the text is returned */
static char *print(const DLiteInstance *inst, int indent, DLiteJsonFlag flags)
{
  int n = dlite_json_sprint(NULL, 0, inst, indent, flags), m;
  VF_CHECK(n > 0, "cannot print");
  char *s = vf_alloc(n + 1);
  m = dlite_json_sprint(s, n + 1, inst, indent, flags);
  VF_CHECK(m == n && strlen(s) == (size_t)n, "%d characters reported, then %d; %zu written", n, m, strlen(s));
  size_t cut = 1 + vf_choice(n); char *c = vf_alloc(cut);
  m = dlite_json_sprint(c, cut, inst, indent, flags);
  VF_CHECK(m == n, "%d characters reported for a buffer of %zu, %d for a large one", m, cut, n);
  VF_CHECK(strlen(c) == cut - 1 && memcmp(c, s, cut - 1) == 0, "a buffer of %zu does not get the first characters of the text", cut);
  char *a = dlite_json_aprint(inst, indent, flags);
  VF_CHECK(a && strcmp(a, s) == 0, "the allocated text differs"); free(a);
  jsmn_parser jp; jsmntok_t *tok = NULL; unsigned nt = 0; jsmn_init(&jp);
  int r = jsmn_parse_alloc(&jp, s, n, &tok, &nt);
  VF_CHECK(r > 0 && tok[0].type == JSMN_OBJECT, "not a JSON object: %s", s); free(tok);
  return s;
}
static DLiteJsonFlag someflags(void) { static const int f[] = {dliteJsonSingle, dliteJsonUriKey, dliteJsonWithUuid, dliteJsonWithMeta, dliteJsonArrays, dliteJsonCompactRel}; int r = 0; for (int i = 0; i < 6; i++) if (vf_bool()) r |= f[i]; return r; }
static void gone(DLiteInstance *inst) { int n = inst->_refcount; VF_CHECK(n == 1, "%d references to the instance", n); dlite_instance_decref(inst); }
#define KEEPID(inst) char uuid[DLITE_UUID_LENGTH+1], *uri = inst->uri ? strcpy(vf_alloc(strlen(inst->uri)+1), inst->uri) : NULL; strcpy(uuid, inst->uuid)
static void check_id(const DLiteInstance *inst, const char *uuid, const char *uri, const char *src)
{
  VF_CHECK(strcmp(inst->uuid, uuid) == 0, "uuid %s instead of %s: %s", inst->uuid, uuid, src);
  VF_CHECK(uri ? inst->uri && strcmp(inst->uri, uri) == 0 : !inst->uri, "uri %s instead of %s", inst->uri ? inst->uri : "(none)", uri ? uri : "(none)");
}
static DLiteInstance *oneinst(GM *g, Model *m)
{
  static int ser; char own[60]; snprintf(own, sizeof own, vf_bool() ? "http://vf.org/j/%d" : "6f%06x-0000-4000-8000-000000000000", ser++);
  return jinst(g, m, vf_bool() ? own : NULL);
}

static void b_roundtrip(void)
{
  GM g; Model m; quiet(); gen_meta(&g, vf_choice(5) != 0);
  DLiteInstance *inst = oneinst(&g, &m);
  DLiteJsonFlag f = someflags(); int single = f & dliteJsonSingle;
  KEEPID(inst);
  char *s = print(inst, vf_choice(4), f);
  gone(inst);
  /* a single entity without uuid or uri needs the id; otherwise the id is optional */
  int known = !single || (f & dliteJsonWithUuid) || uri;
  const char *id = known && vf_bool() ? NULL : (uri && vf_bool()) ? uri : uuid;
  const char *metaid = vf_choice(3) == 0 ? NULL : vf_bool() ? g.uri : g.meta->uuid;
  inst = dlite_json_sscan(s, id, metaid);
  VF_CHECK(inst != NULL, "cannot read back (id %s): %s", id ? id : "NULL", s);
  check_id(inst, uuid, uri, s);
  check_inst(&g, &m, inst, "read back");
  if (vf_bool()) { char *t = print(inst, 0, 0); char *e = print(inst, 0, 0); VF_CHECK(strcmp(t, e) == 0, "printing twice differs"); }
  gone(inst);
  char wrong[60]; sprintf(wrong, "http://vf.org/0.1/W%d", vf_choice(3)); char wu[DLITE_UUID_LENGTH+1]; dlite_get_uuid(wu, wrong);
  VF_CHECK(dlite_json_sscan(s, id, vf_bool() ? wrong : wu) == NULL, "instance of other metadata returned for %s", wrong);
  drop_meta(&g);
}
static void b_several(void)
{
  enum { N = 4 }; GM g[2]; Model m[N]; DLiteInstance *inst[N]; char uu[N][DLITE_UUID_LENGTH+1], *ur[N]; int of[N], n = 1 + vf_choice(N), i, k, nm = 2;
  quiet(); for (i = 0; i < nm; i++) gen_meta(&g[i], 1);
  DLiteJsonFlag f = someflags();
  char *s = NULL; size_t size = 0;
  int store = vf_bool(); JStore *js = store ? jstore_open() : NULL;
  if (!store && vf_bool()) { s = strdup("{}"); size = 3; }
  for (i = 0; i < n; i++) {
    of[i] = vf_choice(nm); inst[i] = oneinst(&g[of[i]], &m[i]);
    strcpy(uu[i], inst[i]->uuid); ur[i] = inst[i]->uri ? strcpy(vf_alloc(strlen(inst[i]->uri)+1), inst[i]->uri) : NULL;
    if (store) VF_CHECK(dlite_jstore_add(js, inst[i], f) == 0, "cannot add to the store");
    else if (!s) VF_CHECK(dlite_json_asprint(&s, &size, 0, inst[i], 0, f & ~dliteJsonSingle) > 0, "cannot print");
    else VF_CHECK(dlite_json_append(&s, &size, inst[i], f) >= 0, "cannot append");
  }
  for (i = 0; i < n; i++) gone(inst[i]);
  int del = -1;
  if (store && vf_bool()) { del = vf_choice(n); VF_CHECK(dlite_jstore_remove(js, uu[del]) == 0, "cannot remove"); }
  if (store && vf_bool()) {   /* through a file */
    VF_CHECK(jstore_to_file(js, "vf_store.json") == 0, "cannot write"); jstore_close(js); js = jstore_open();
    if (n - (del >= 0) > 0 || vf_bool()) VF_CHECK((int)dlite_jstore_loadf(js, "vf_store.json") >= 0, "cannot load");
  }
  /* iteration gives every id once */
  for (k = -1; k < nm; k++) {
    const char *metaid = k < 0 ? NULL : vf_bool() ? g[k].uri : g[k].meta->uuid, *p; int len, seen[N] = {0};
    DLiteJsonIter *it = store ? NULL : dlite_json_iter_create(s, 0, metaid); DLiteJStoreIter *jt = store ? dlite_jstore_iter_create(js, metaid) : NULL;
    while ((p = store ? dlite_jstore_iter_next(jt) : dlite_json_next(it, &len))) {
      char u[DLITE_UUID_LENGTH+1]; dlite_get_uuidn(u, p, store ? strlen(p) : (size_t)len);
      for (i = 0; i < n && strcmp(u, uu[i]); i++);
      VF_CHECK(i < n, "iteration gives the unknown id %s", u); seen[i]++;
    }
    for (i = 0; i < n; i++) VF_CHECK(seen[i] == (i != del && (k < 0 || of[i] == k)), "iteration over %s gives instance %d %d times", metaid ? metaid : "all", i, seen[i]);
    if (store) dlite_jstore_iter_free(jt); else dlite_json_iter_free(it);
  }
  for (k = 0; k < n; k++) {
    i = vf_choice(n);
    const char *id = ur[i] && vf_bool() ? ur[i] : uu[i];
    DLiteInstance *q = store ? dlite_jstore_get(js, id) : dlite_json_sscan(s, id, NULL);
    VF_CHECK((q != NULL) == (i != del), "instance %d (%s) %s", i, id, q ? "found after removal" : "not found");
    if (!q) continue;
    check_id(q, uu[i], ur[i], s ? s : ""); check_inst(&g[of[i]], &m[i], q, "read from several"); gone(q);
  }
  if (store) jstore_close(js); else free(s);
  for (i = 0; i < nm; i++) drop_meta(&g[i]);
}
/* metadata */
static void same(const char *a, const char *b, const char *what) { VF_CHECK(strcmp(a ? a : "", b ? b : "") == 0, "%s \"%s\" instead of \"%s\"", what, a ? a : "(null)", b ? b : "(null)"); }
static void b_metadata(void)
{
  int i, j, nd = vf_choice(MAXD + 1), np = 1 + vf_choice(MAXP); static int ser; char uri[80]; char *desc = NULL, buf[200];
  quiet();
  DLiteDimension d[MAXD]; DLiteProperty p[MAXP]; char *shape[MAXP][2];
  memset(d, 0, sizeof d); memset(p, 0, sizeof p);
  sprintf(uri, "http://vf.org/0.2/J%d", ser++);
  if (vf_choice(4)) { desc = vf_alloc(12); text(desc, vf_choice(12)); } else desc = "";
  for (i = 0; i < nd; i++) { d[i].name = (char *)dimnames[i]; d[i].description = vf_alloc(10); text(d[i].description, vf_choice(10)); }
  for (i = 0; i < np; i++) {
    TS t = types[vf_choice(NTYPES)]; p[i].name = (char *)propnames[i]; p[i].type = t.type; p[i].size = t.size; p[i].ndims = vf_choice(3); p[i].shape = shape[i];
    for (j = 0; j < p[i].ndims; j++) { int e; do e = vf_choice(sizeof(exprs)/sizeof(exprs[0])); while (exprs[e].need > nd); shape[i][j] = (char *)exprs[e].text; }
    if (vf_bool()) { p[i].unit = vf_alloc(8); text(p[i].unit, vf_choice(8)); }
    if (vf_bool()) { p[i].description = vf_alloc(8); text(p[i].description, vf_choice(8)); }
  }
  DLiteMeta *meta = dlite_meta_create(uri, desc, nd, d, np, p);
  VF_CHECK(meta != NULL, "metadata could not be created");
  DLiteJsonFlag f = someflags();
  char *s = print((DLiteInstance *)meta, vf_choice(3), f), uuid[DLITE_UUID_LENGTH+1]; strcpy(uuid, meta->uuid);
  while (meta->_refcount > 1) dlite_meta_decref(meta); dlite_meta_decref(meta);
  DLiteInstance *q = dlite_json_sscan(s, vf_bool() ? uri : NULL, vf_choice(3) ? NULL : DLITE_ENTITY_SCHEMA);
  VF_CHECK(q && dlite_instance_is_meta(q), "cannot read back metadata: %s", s);
  DLiteMeta *t = (DLiteMeta *)q;
  check_id(q, uuid, uri, s);
  same(*(char **)dlite_instance_get_property(q, "description"), desc, "description");
  VF_CHECK((int)t->_ndimensions == nd && (int)t->_nproperties == np, "%d dimensions and %d properties", (int)t->_ndimensions, (int)t->_nproperties);
  for (i = 0; i < nd; i++) { same(t->_dimensions[i].name, d[i].name, "dimension name"); same(t->_dimensions[i].description, d[i].description, "dimension description"); }
  for (i = 0; i < np; i++) {
    const DLiteProperty *a = &t->_properties[i];
    same(a->name, p[i].name, "property name"); VF_CHECK(a->type == p[i].type && a->size == p[i].size && a->ndims == p[i].ndims, "property %s: type %d, %zu bytes, %d dimensions", a->name, a->type, a->size, a->ndims);
    for (j = 0; j < a->ndims; j++) same(a->shape[j], p[i].shape[j], "dimension expression");
    same(a->unit, p[i].unit, "unit"); same(a->description, p[i].description, "property description");
  }
  while (q->_refcount > 1) dlite_instance_decref(q); dlite_instance_decref(q);
}
VfBody vf_bodies[] = {{"roundtrip", b_roundtrip, 0}, {"several", b_several, 0}, {"metadata", b_metadata, 0}, {0}};
