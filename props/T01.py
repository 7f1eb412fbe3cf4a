def u(name, f, h, *d, **k):
    return Unit(name, "type.c", f, [], kind="core", keep=["/repo/src/dlite-type.c:type_table", "/repo/src/dlite-type.c:dtype_names"], defs=d, harness=h, **k)
UNITS = [
  u("dtypename", "dlite_type_get_dtypename", "h_name", "U_ENUM", unwind=20),
  u("is_allocated", "dlite_type_is_allocated", "h_alloc", "U_ENUM", unwind=20),
  u("dtype_of_name", "dlite_type_get_dtype", "h_dtype", "U_ENUM", unwind=20, replace=["is_metaref"], bound="names up to 11 characters"),
  u("parse", "dlite_type_set_dtype_and_size", "h_parse", "U_TEXT", unwind=27, replace=["is_metaref"], bound="names up to 12 characters", backend="cadical", timeout=400),
]
for t in ('Blob','Bool','Int','UInt','Float','FixString','StringPtr','Ref','Dimension','Property','Relation'):
  UNITS.append(u("write_"+t, "dlite_type_set_typename", "h_write", "U_TEXT", "DT=dlite"+t, unwind=27, bound="sizes up to 9999 bytes" if t in ("Blob", "FixString") else None))
NATIVE = [Native("type.c", kind="core", core=True, quick=10, thorough=60)]
