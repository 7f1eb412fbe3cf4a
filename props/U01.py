def u(name, f, h, *d, **k):
    k.setdefault("dfcc", False); k.setdefault("backend", "cadical")
    return Unit(name, "uuid.c", None, [], functions=[f], harness=h, defs=list(d) + ["__NO_CTYPE"], **k)
UNITS = [
  u("isuuid", "isuuid", "h_isuuid", "U_UUID", unwind=38),
  u("isuuid_short", "isuuid", "h_isuuid_short", "U_UUID", unwind=38),
  u("hexbyte", "hexbyte", "h_hexbyte", "U_UUID"),
  u("as_string", "uuid_as_string", "h_tostr", "U_UUID", unwind=40),
  u("from_string", "uuid_from_string", "h_fromstr", "U_UUID", unwind=40),
  u("compare", "uuid_compare", "h_cmp", "U_UUID", unwind=18),
  u("format", "format_uuid_v3or5", "h_format", "U_UUID", unwind=18),
  u("from_name", "uuid_create_sha1_from_name", "h_name", "U_UUID", "U_NAME", unwind=26, bound="names up to 24 bytes"),
  u("uuid4", "uuid4_generate", "h_uuid4", "U_UUID4", unwind=66, timeout=200),
]
for n in (0, 1, 7, 36, 45, 46, 60, 228, 240):
    UNITS.append(u("get_uuid_%d" % n, "_dlite_get_uuidn", "h_getuuid", "U_MISC", "LEN=%d" % n, "VF_PRINTF_MAXS=%d" % (n + 30), kind="core", unwind=n + 42, timeout=400, checks=["--no-malloc-may-fail"], bound="ids of %d characters" % n))
NATIVE = [Native("uuid.c", kind="core", core=True, quick=10, thorough=60)]
ASSUMPTIONS = ["snprintf, sprintf, sscanf behave as specified for the formats used (executable models in lib/vf_printf.h interpret the format strings of the code)", "the random generator itself (rng.c) and SHA-1 (property H01) are not part of this property", "recognition of URLs is property W01 (isurln is an arbitrary predicate here)", "allocation succeeds"]
LEVEL = "other"
