LEVEL = "other"
UNITS = []
for nd in (1, 2):
    for d in ([], ["DEFAULT"]):
        UNITS.append(Unit("ndcast_rank%d%s" % (nd, "_contiguous" if d else ""), "ndcast.c", "dlite_type_ndcast", [], kind="core", defs=["ND=%d" % nd] + d, backend="cadical",
            unwind=11 if nd == 2 else 6, unwindset=["harness.0:260", "harness.1:260", "harness.2:260", "harness.3:260"], nofail=True, object_bits=11, timeout=200,
            bound="rank %d, at most 3 elements along each dimension, strides -20..20" % nd))
NATIVE = [Native("ndcast.c", kind="core", core=True, quick=12, thorough=60)]
ASSUMPTIONS = ["memory allocation succeeds"]
