def u(name, f, h, *d, **k):
    k.setdefault("unwind", 66)
    return Unit(name, "collection.c", None, [], kind="core", functions=f.split(), harness=h, defs=list(d) + ["EXT=%d" % k.pop("ext", 1)], dfcc=False, backend="cadical", timeout=300, checks=["--no-malloc-may-fail"], object_bits=11,
                bound="two labels, two instances, one more relation; every such collection", **k)
UNITS = []
for l in (0, 1):
    for i in (0, 1):
        UNITS.append(u("add_%d_%d" % (l, i), "dlite_collection_add dlite_collection_add_new dlite_collection_add_relation", "h_add", "U_ADD", "L=%d" % l, "I=%d" % i, "ISNEW=%d" % (l ^ i)))
    UNITS += [u("remove_%d" % l, "dlite_collection_remove", "h_remove", "U_REMOVE", "L=%d" % l),
      u("query_%d" % l, "dlite_collection_get dlite_collection_get_new dlite_collection_has dlite_collection_has_id dlite_collection_count", "h_query", "U_QUERY", "L=%d" % l)]
UNITS += [
  u("next", "dlite_collection_next dlite_collection_next_new", "h_next", "U_QUERY", "L=0"),
  u("deinit", "dlite_collection_deinit", "h_deinit", "U_QUERY", "L=0"),
  u("prop", "dlite_collection_saveprop dlite_collection_loadprop dlite_collection_getdim", "h_prop", "U_PROP"),
  u("hash", "dlite_collection_gethash", "h_hash", "U_HASH"),
]
for k in range(4):
    UNITS.append(u("relation_%d" % k, "dlite_collection_add_relation dlite_collection_remove_relations dlite_collection_find_first", "h_relation", "U_REL", "K=%d" % k))
for z in (0, 1):
    for m in (0, 1, 2, 3):
        UNITS.append(u("load_%d_%d" % (z, m), "dlite_collection_load", "h_load", "U_LOAD", "LAZY=%d" % z, "MISSING=%d" % m))
NATIVE = [Native("collection.c", kind="core", core=True, quick=12, thorough=60)]
ASSUMPTIONS = ["the triplestore (librdf behind triplestore-redland.c) is a set of triples whose search result is overwritten by the next search (assumed contract, executable in specs/collection.c)",
  "allocation succeeds", "every instance referred to is in memory or can be loaded"]
LEVEL = "other"
