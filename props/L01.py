def u(name, f, h, *d, **k):
    return Unit(name, "type.c", f, [], kind="core", keep=["type_table", "dtype_names"], defs=d, harness=h, **k)
UNITS = [
  u("alignment", "dlite_type_get_alignment", "harness", "U_ALIGN", unwind=27),
  u("padding", "dlite_type_padding_at", "h_pad", "USE_ALIGN", replace=["dlite_type_get_alignment"]),
  u("member_offset", "dlite_type_get_member_offset", "h_off", "USE_ALIGN", replace=["dlite_type_get_alignment"]),
]
NATIVE = [Native("layout.c", kind="core", core=True, quick=12, thorough=60)]
for n in (1, 2, 3, 4):
    UNITS.append(Unit("meta_init_%dprops" % n, "layout.c", "dlite_meta_init", [], kind="core", defs=["NP=%d" % n], harness="h_init", unwind=20, rec=True,
        replace=["dlite_type_padding_at", "dlite_meta_is_metameta", "_instance_propdims_eval"], bound="metadata with %d properties" % n, keep=["D"]))
UNITS.append(Unit("instance_size", "layout.c", "dlite_instance_size", [], kind="core", defs=["NP=1", "U_SIZE"], harness="h_size", unwind=20,
        replace=["dlite_meta_is_metameta", "dlite_meta_get_dimension_index"]))
