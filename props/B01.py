def u(name, f, h, *d, **k):
    k = dict(dict(backend="cadical", timeout=300, unwind=16), **k)
    return Unit(name, "bson.c", None, [], functions=f.split(), harness=h, defs=list(d), dfcc=False, checks=["--no-malloc-may-fail"], **k)
UNITS = []
for t in "Double String Document Array Binary Bool Null Int32 UInt64 Int64".split():
    for old, size in ((5, 5), (8, 0), (8, 7)) if t in ("String", "Binary") else ((5, 5), (8, 8)) if t in ("Document", "Array") else ((5, 5), (8, 5)):
        UNITS.append(u("append_%s_%d_%d" % (t, old, size), "bson_append bson_parse bson_elementsize bson_datasize bson_docsize", "h_append", "U_APPEND", "TYPE=bson" + t, "OLD=%d" % old, "SIZE=%d" % size, bound="names of 2 and data of %d bytes, after any document of %d bytes" % (size, old)))
    UNITS.append(u("short_%s" % t, "bson_append", "h_append", "U_APPEND", "U_SHORT", "TYPE=bson" + t, bound="names of 2 and data of 5 bytes, after any document of 7 bytes, any smaller buffer"))
for t, f, ss in (("Document", "bson_begin_subdoc bson_end_subdoc", (5, 11)), ("Array", "bson_begin_subdoc bson_end_subdoc", (5, 8)), ("Binary", "bson_begin_binary bson_append_binary bson_end_binary", (0, 1, 6))):
    for k in ss:
        UNITS.append(u("sub_%s_%d" % (t, k), f + " bson_parse", "h_sub", "U_SUB", "TYPE=bson" + t, "SUB=%d" % k, bound="names of 2 and any contents of %d bytes" % k))
for t in "Double String Document Array Binary Bool Null Int32 UInt64 Int64".split():
    UNITS.append(u("count_" + t, "bson_nelements bson_parse", "h_count", "U_COUNT", "TYPE=bson" + t, "NPRE=1", bound="an element behind another one, names of 2 and data of up to 6 bytes"))
UNITS.append(u("scan", "bson_scan bson_scann", "h_scan", "U_SCAN", "S_NUM=-1", bound="every sequence of up to 3 elements, names of up to 2 bytes", replace_calls=["bson_parse:m_parse"]))
for i, f in enumerate("int32 int64 uint64 double bool string".split()):
    UNITS.append(u("scan_" + f, "bson_scan_" + f, "h_scan", "U_SCAN", "S_NUM=%d" % i, bound="every sequence of up to 3 elements, names of up to 2 bytes", replace_calls=["bson_parse:m_parse"]))
def v(name, f, h, *d, **k):
    k = dict(dict(backend="cadical", timeout=300, unwind=24), **k)
    return Unit(name, "dlite_bson.c", None, [], kind="core", functions=f.split(), harness=h, defs=list(d), dfcc=False, checks=["--no-malloc-may-fail", "--max-field-sensitivity-array-size", "900"], **k)
PLAIN = [("Blob", 1), ("Blob", 5), ("Bool", 1), ("Int", 1), ("Int", 2), ("Int", 4), ("Int", 8), ("UInt", 1), ("UInt", 2), ("UInt", 4), ("UInt", 8), ("Float", 4), ("Float", 8), ("FixString", 1), ("FixString", 6)]
for t, z in PLAIN:
    x = ["ISNAN=" + ("float" if z == 4 else "double")] if t == "Float" else []
    UNITS.append(v("scalar_%s_%d" % (t, z), "append_property set_scalar_property bsontype bson_append bson_parse", "h_prop", "U_SCALAR", "TYPE=dlite" + t, "PSIZE=%d" % z, *x, bound="every value, in a document with one property with a name of 2 characters"))
UNITS.append(v("scalar_StringPtr", "append_property set_scalar_property", "h_prop", "U_SCALAR", "TYPE=dliteStringPtr", "PSIZE=8", bound="NULL and texts of up to 2 characters"))
UNITS.append(v("scalar_Ref", "append_property set_scalar_property", "h_prop", "U_SCALAR", "TYPE=dliteRef", "PSIZE=8", unwind=48, bound="NULL and two instances"))
for m in (0, 15, 6, 9):
    UNITS.append(v("scalar_Relation_%d" % m, "append_property set_scalar_property append_relation parse_relation", "h_prop", "U_SCALAR", "TYPE=dliteRelation", "PSIZE=40", "MASK=%d" % m, unwind=44, bound="one relation, texts of up to 2 characters"))
for t, z in PLAIN:
    for n in (0, 2):
        for w in ((0, 1) if n and t in ("Int", "UInt", "Float") else (0,)):
            UNITS.append(v("array_%s_%d_%d%s" % (t, z, n, "_swapped" * w), "append_property check_array_property set_array_property", "h_prop", "U_ARRAY", *["U_SWAP"]*w, "TYPE=dlite" + t, "PSIZE=%d" % z, "N=%d" % n, bound="arrays of %d elements" % n))
for n in (0, 2):
    for m in ((0, 2, 4, 6) if n else (0,)):
        UNITS.append(v("array_StringPtr_%d_%d" % (n, m), "append_property check_array_property set_array_property", "h_prop", "U_ARRAY", "TYPE=dliteStringPtr", "PSIZE=8", "N=%d" % n, "MASK=%d" % m, bound="arrays of %d texts (1 and 2 characters, or NULL)" % n))
    for m in ((0, 1, 4, 5, 13) if n else (0,)):
        UNITS.append(v("array_Ref_%d_%d" % (n, m), "append_property check_array_property set_array_property", "h_prop", "U_ARRAY", "TYPE=dliteRef", "PSIZE=8", "N=%d" % n, "MASK=%d" % m, unwind=84, bound="arrays of %d references (NULL or one of two instances)" % n))
for n, m in ((0, 0), (1, 15), (2, 0x69)):
    UNITS.append(v("array_Relation_%d" % n, "append_property check_array_property set_array_property append_relation parse_relations", "h_prop", "U_ARRAY", "TYPE=dliteRelation", "PSIZE=40", "N=%d" % n, "MASK=%d" % m, unwind=84, bound="arrays of %d relations" % n))
for t, z, n, s in (("Int", 4, 2, 8), ("Int", 4, 2, 7), ("Int", 4, 2, 9), ("Blob", 3, 1, 3), ("StringPtr", 8, 2, 4), ("StringPtr", 8, 0, 0), ("Ref", 8, 1, 3), ("Relation", 40, 2, 5)):
    UNITS.append(v("check_%s_%d_%d" % (t, n, s), "check_array_property", "h_check", "U_CHECK", "U_ARRAY", "TYPE=dlite" + t, "PSIZE=%d" % z, "N=%d" % n, "SIZE=%d" % s, unwind=44, bound="any element of %d bytes for an array of %d" % (s, n)))
for name, d in (("uri", ["KNOWN=0"]), ("nouri", ["KNOWN=0", "NOURI"]), ("parent", ["KNOWN=0", "PARENT"]), ("array", ["KNOWN=0", "U_ARRAY"]), ("known", ["KNOWN=1"]), ("known_uuid", ["KNOWN=1", "NOURI"])):
    UNITS.append(v("whole_" + name, "dlite_bson_from_instance dlite_bson_append_instance dlite_bson_load_instance set_parent", "h_whole", "U_WHOLE", "TYPE=dliteInt", "PSIZE=4", *d, unwind=44, bound="an instance with one dimension and one property, every value"))
for name, d in (("description", ["DESCR=\"d\"", "NONS=0"]), ("plain", ["DESCR=NULL", "NONS=1"])):
    UNITS.append(v("meta_" + name, "dlite_bson_from_instance dlite_bson_append_instance dlite_bson_load_instance set_meta_dimensions set_meta_strings set_meta_properties", "h_meta", "U_META", "TYPE=dliteInt", "PSIZE=4", *d, unwind=44, bound="one metadata with two dimensions and two properties"))
NATIVE = [Native("bson.c", kind="core", core=True, quick=12, thorough=60)]
ASSUMPTIONS = ["allocation succeeds", "the host is little endian (as the verifier and this machine are)", "the instance store, the type names and dlite_meta_init are replaced by executable contracts (specs/dlite_bson.c); the bodies run natively", "values that are NaN are left out"]
LEVEL = "other"
