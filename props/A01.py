def u(name, f, *d, **k):
    k.setdefault("loops", "arrays_loops.h")
    return Unit(name, "arrays.c", f, ["dlite-arrays.c"], kind="core", defs=d, backend=k.pop("b", "sat"), **k)
UNITS = [
  u("is_continuous", "dlite_array_is_continuous", "U_CONT", b="cvc5"),
  u("transpose", "dlite_array_transpose", "U_TRANSPOSE", "USE_CREATE", replace=["dlite_array_create"]),
  u("iter_next", "dlite_array_iter_next", "U_NEXT", replace=["dlite_array_index"], checks=["--no-signed-overflow-check"]),
]
for nd in (1, 2, 3, 4):
    UNITS.append(u("index_rank%d" % nd, "dlite_array_index", "U_INDEX", "ND=%d" % nd, loops=False, bound="rank %d, indices 0..15, strides -128..127" % nd, b="cadical", checks=["--no-signed-overflow-check"]))
for st in (1, 2, 3, -1, -2, -3):
    UNITS.append(u("slice_step%d" % st, "dlite_array_slice", "U_SLICE", "USE_CREATE", "DIMMAX=1000", "STEP=(%d)" % st, loops=False,
                   bound="rank 1, step %d, dimension at most 1000, stride 12" % st, replace=["dlite_array_create", "dlite_array_free"]))
NATIVE = [Native("arrays.c", kind="core", core=True, quick=12, thorough=60)]
