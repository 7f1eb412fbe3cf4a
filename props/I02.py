def u(name, f, *d, **k):
    return Unit(name, "trans.c", f, [], kind="core", defs=d, **k)
UNITS = [
  u("set_parent_first", "dlite_instance_set_parent", "U_PARENT", "HASOLD=0", replace=["dlite_instance_get_hash", "dlite_instance_decref"], unwind=38),
  u("set_parent_again", "dlite_instance_set_parent", "U_PARENT", "HASOLD=1", replace=["dlite_instance_get_hash", "dlite_instance_decref"], unwind=38),
  u("verify_hash", "dlite_instance_verify_hash", "U_VERIFY", "WITHHASH=1", replace=["dlite_instance_get_hash", "dlite_instance_decref", "dlite_instance_get", "memcmp"], unwind=6, rec=True),
  u("verify_parent", "dlite_instance_verify_hash", "U_VERIFY", "WITHHASH=0", replace=["dlite_instance_get_hash", "dlite_instance_decref", "dlite_instance_get", "memcmp"], unwind=6, rec=True),
  u("get_snapshot", "dlite_instance_get_snapshot", "U_SNAP", replace=["dlite_instance_get"], bound="chains of at most 3 snapshots"),
]
H = ["sha3_Init", "sha3_SetFlags", "sha3_Finalize", "sha3_Update", "dlite_type_update_sha3"]
for n, d in (("values", []), ("strings", ["STR"])):
    UNITS.append(u("hash_stream_" + n, "dlite_instance_get_hash", "U_STREAM", *d, replace=H, unwind=5, object_bits=11,
                   bound="two dimensions, a scalar and an array of at most 2 elements, strings of one character"))
for i, n in enumerate(("raw", "string", "ref", "dimension", "property", "relation")):
    UNITS.append(u("hash_elem_" + n, "dlite_type_update_sha3", "U_ELEM", "T=%d" % i, replace=["sha3_Update"],
                   bound=None if n in ("ref",) else "raw elements up to 9 bytes" if n == "raw" else "strings up to 2 characters"))
NATIVE = [Native("trans.c", kind="core", core=True, quick=12, thorough=60)]
