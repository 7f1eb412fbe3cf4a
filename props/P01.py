def u(name, f, *d, **k):
    k.setdefault("loops", "uri_loops.h")
    return Unit(name, "uri.c", f, [], defs=d, keep=["/repo/src/utils/uri_encode.c:uri_encode_tbl", "/repo/src/utils/uri_encode.c:hexval"], **k)
UNITS = [
  u("encode", "uri_encode", "U_ENC", "CAP=32", bound="byte strings up to 32 bytes (loop invariants, no unwinding; the bound only sizes the buffers)", backend="cadical", timeout=300),
  u("decode_encoded", "uri_decode", "U_DEC", "CAP=32", bound="byte strings up to 32 bytes (loop invariants, no unwinding; the bound only sizes the buffers)", backend="cadical", timeout=300),
  u("decode_any", None, "U_SMALL", "LEN=6", loops=False, functions=["uri_decode"], bound="texts up to 6 bytes"),
  Unit("hex_encode", "hex.c", "strhex_encode", [], defs=["U_HENC"], bound="up to 4 bytes, buffers up to 10"),
  Unit("hex_decode", "hex.c", "strhex_decode", [], defs=["U_HDEC", "__NO_CTYPE"], bound="up to 8 digits"),
]
NATIVE = [Native("uri.c", src=["utils/uri_encode.c", "utils/strutils.c", "utils/compat.c", "utils/clp2.c", "utils/compat-src/snprintf.c"], quick=8, thorough=60)]
ASSUMPTIONS = ["the destination has room for the announced length (checked: exactly that much is written)", "snprintf(\"%02x\") of libc behaves as specified (model in specs/hex.c)"]
LEVEL = "other"
