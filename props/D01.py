LEVEL = "other"
def u(name, f, *d, **k):
    return Unit(name, "resize.c", f, [], kind="core", defs=d, nofail=True, **k)
UNITS = [
  u("set_dimension_sizes", "dlite_instance_set_dimension_sizes", "U_RESIZE", "MAXN=2", replace=["_instance_propdims_eval", "dlite_type_clear", "dlite_instance_is_data"], unwind=17, object_bits=11,
    bound="two dimensions, a scalar, a vector and a matrix property, at most 2 elements along each dimension"),
  u("set_dimension_size", "dlite_instance_set_dimension_size_by_index", "U_ONE", replace=["dlite_instance_set_dimension_sizes"], bound="at most 6 dimensions"),
  u("propdims_eval", "_instance_propdims_eval", "U_EVAL", replace=["infixcalc"], bound="two dimensions, two properties with three dimensions"),
]
NATIVE = [Native("resize.c", kind="core", core=True, quick=12, thorough=60)]
ASSUMPTIONS = ["memory allocation succeeds (a failing allocation in the middle of a resize leaves a partly resized instance)"]
