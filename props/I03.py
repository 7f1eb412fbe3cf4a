UNITS = [Unit("decref", "entity.c", "dlite_instance_decref", [], kind="core", harness="h_dec", replace=["dlite_instance_free"], defs=["U_REF"]),
  Unit("incref", "entity.c", "dlite_instance_incref", [], kind="core", harness="h_inc", defs=["U_REF"])]
NATIVE = [Native("store.c", kind="core", core=True, quick=12, thorough=60)]
