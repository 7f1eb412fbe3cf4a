UNITS = [
    Unit("clp2", "clp2.c", "clp2", ["utils/clp2.c"], harness="h_clp2"),
    Unit("flp2", "clp2.c", "flp2", ["utils/clp2.c"], harness="h_flp2"),
]
NATIVE = [Native("clp2.c", ["utils/clp2.c"], quick=4, thorough=20)]
