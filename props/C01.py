UNITS = []
_rep = ["dlite_type_print", "dlite_type_copy", "dlite_type_set_typename", "strtold"]
for nm, no, sizes in (("Bool", 1, (1,)), ("Int", 2, (1, 2, 4, 8)), ("UInt", 3, (1, 2, 4, 8)), ("Float", 4, (4, 8))):
    for sn in sizes:
        for dt in ("Bool", "Int", "UInt", "Float"):
            UNITS.append(Unit("%s%d_to_%s" % (nm, 8 * sn, dt), "cast.c", "dlite_type_copy_cast", ["dlite-type-cast.c"],
                              kind="core", replace=_rep,
                              defs=["SRC=dlite" + nm, "SRC_NO=%d" % no, "SRCN=%d" % sn, "DST=dlite" + dt]))
for a, b in [("Blob", x) for x in ("Blob", "Bool", "Int", "UInt", "Float")] + [(x, "Blob") for x in ("Bool", "Int", "UInt", "Float")]:
    UNITS.append(Unit("raw_%s_to_%s" % (a, b), "cast_blob.c", "dlite_type_copy_cast", ["dlite-type-cast.c"], kind="core",
                      replace=_rep, defs=["SRC=dlite" + a, "DST=dlite" + b]))
NATIVE = [Native("cast.c", kind="core", core=True, quick=8, thorough=60)]
TRUSTED = ["_err_format() returns its eval argument (stub for utils/err.c)"]
