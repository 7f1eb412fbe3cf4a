def u(name, f, h, *d, **k):
    k.setdefault("dfcc", False); k.setdefault("backend", "cadical")
    return Unit(name, "url.c", None, [], functions=f.split(), harness=h, defs=list(d) + ["__NO_CTYPE"], **k)
UNITS = [
  u("utf8", "utf8encode utf8decode", "h_utf8", "U_UTF8", unwind=8),
  u("utf8_any", "utf8decode", "h_utf8dec", "U_UTF8", unwind=8),
  u("setc", "strsetc", "h_setc", "U_CAT", unwind=9),
  u("sets", "strsets strsetn", "h_sets", "U_CAT", unwind=9, bound="sources up to 5 bytes"),
]
NATIVE = [Native("utf8.c", src=["utils/unicode.c", "utils/strutils.c", "utils/compat.c", "utils/clp2.c", "utils/compat-src/snprintf.c"], quick=6, thorough=40)]
ASSUMPTIONS = ["longer texts and growing buffers (strput, strnput, strnput_escape) are covered by the stand-in only"]
LEVEL = "other"
