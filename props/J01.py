def u(name, h, fs, *d, **k):
    k.setdefault("dfcc", False); k.setdefault("backend", "cadical")
    k.setdefault("timeout", 300)
    return Unit(name, "json.c", None, k.pop("src", []), functions=fs.split(), harness=h, defs=list(d) + ["__NO_CTYPE"], **k)
Q = dict(src=["utils/strutils.c"])
QF = "strnquote strquote strnunquote strunquote"
UNITS = []
for n in (0, 1, 2, 3):
    UNITS += [u("quote_%d" % n, "h_quote", QF, "U_QUOTE", "LEN=%d" % n, unwind=6*n + 8, bound="every text of %d characters" % n, checks=["--no-malloc-may-fail"], **Q)]
UNITS += [
  u("quote_room", "h_room", QF, "U_QUOTE", "LEN=2", unwind=24, bound="texts of 2 characters", checks=["--no-malloc-may-fail"], **Q),
  u("unquote_any", "h_unquote", QF, "U_QUOTE", "LEN=3", unwind=12, bound="texts of 3 characters", checks=["--no-malloc-may-fail"], **Q),
  u("escapes", "h_escapes", QF, "U_QUOTE", unwind=10, **Q),
]
for r in (0, 2, 4):
    UNITS += [u("put_unquote_%d" % r, "h_put", "strnput_unquote strnquote strnunquote", "U_QUOTE", "U_PUT", "LEN=1", "ROOM=%d" % r, unwind=12, bound="texts of 1 character", checks=["--no-malloc-may-fail"])]
T = dict(kind="core", src=["utils/strutils.c", "utils/strtob.c"], unwind=40, checks=["--no-malloc-may-fail"])
S = dict(T, unwind=12)
TF = "dlite_type_print dlite_type_scan"
for s in (1, 2, 4, 8):
    UNITS += [u("int%d" % (8*s), "h_value", TF, "U_TYPE", "DT=dliteInt", "SZ=%d" % s, **T), u("uint%d" % (8*s), "h_value", TF, "U_TYPE", "DT=dliteUInt", "SZ=%d" % s, **T)]
UNITS += [u("float32", "h_value", TF, "U_TYPE", "DT=dliteFloat", "SZ=4", "ISFLOAT", **T), u("float64", "h_value", TF, "U_TYPE", "DT=dliteFloat", "SZ=8", "ISFLOAT", **T),
  u("bool", "h_value", TF, "U_TYPE", "DT=dliteBool", "SZ=1", "ISBOOL", **T),
  u("blob", "h_value", TF, "U_TYPE", "DT=dliteBlob", "SZ=3", "ISBLOB", bound="blobs of 3 bytes", **T),
  u("fixstring", "h_value", TF, "U_TYPE", "DT=dliteFixString", "SZ=2", "ISFIX", bound="strings of 2 bytes", **S),
  u("string", "h_value", TF, "U_TYPE", "DT=dliteStringPtr", "SZ=8", "SLEN=1", "ISSTR", bound="texts of 1 character", **S)]
A = dict(kind="core", src=["utils/strutils.c", "utils/jsmnx.c"], unwind=30, checks=["--no-malloc-may-fail"], object_bits=11)
AF = "dlite_property_print dlite_property_scan scandim scantoken writedim jsmn_parse jsmn_parse_alloc dlite_type_print dlite_type_scan"
UNITS += [u("array_int16", "h_array", AF, "U_ARR", "DT=dliteInt", "SZ=2", "NE=3", "SHAPE={3}", "ND=1", bound="arrays of 3", **A),
  u("array_2x2", "h_array", AF, "U_ARR", "DT=dliteUInt", "SZ=8", "NE=4", "SHAPE={2,2}", "ND=2", bound="arrays of 2x2", **dict(A, unwind=42)),
  u("array_empty", "h_array", AF, "U_ARR", "DT=dliteUInt", "SZ=8", "NE=0", "SHAPE={2,0}", "ND=2", bound="arrays of 2x0", **A)]
NATIVE = [Native("json.c", kind="core", core=True, quick=20, thorough=120)]
ASSUMPTIONS = ["printing and reading of decimal numbers by libc are inverse as stated in lib/vf_num.h (exact for integers and for floats printed with DECIMAL_DIG significant digits)",
  "finite numbers only; long doubles are outside (HAVE_FLOAT80/128 are never defined, so they cannot be printed)",
  "property names, dimension names and uris contain no quotes, backslashes or control characters", "allocation succeeds"]
LEVEL = "other"
