NC = ["dlite_instance_copy", "dlite_instance_get_hash", "dlite_instance_get_property_by_index", "dlite_property_scan", "dlite_type_ndcast",
      "dlite_init", "rand_msws32", "dlite_instance_is_data", "_instance_propdims_eval", "dlite_type_copy"]
def u(name, f, h):
    return Unit(name, "entity.c", f, [], kind="core", harness=h, replace=NC, unwind=3, defs=["U_FROZEN"])
UNITS = [u("set_property", "dlite_instance_set_property_by_index", "h_setprop"),
  u("set_dimension_sizes", "dlite_instance_set_dimension_sizes", "h_setdims"),
  u("set_parent", "dlite_instance_set_parent", "h_setparent"),
  u("snapshot", "dlite_instance_snapshot", "h_snapshot"),
  u("assign_casted_property", "dlite_instance_assign_casted_property_by_index", "h_assign"),
  u("scan_property", "dlite_instance_scan_property_by_index", "h_scan"),
  u("freeze", "dlite_instance_freeze", "h_freeze"),
  u("is_frozen", "dlite_instance_is_frozen", "h_isfrozen")]
NATIVE = [Native("frozen.c", kind="core", core=True, quick=12, thorough=60)]
