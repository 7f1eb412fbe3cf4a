def u(name, f, h, *d, **k):
    k.setdefault("dfcc", False); k.setdefault("backend", "cadical")
    return Unit(name, "url.c", None, [], functions=f.split(), harness=h, defs=list(d) + ["__NO_CTYPE"], **k)
UNITS = [
  u("category", "strcategory", "h_cat", "U_CAT", unwind=14),
  u("span", "strcatspn strcatcspn strcatjspn strcatcjspn", "h_spn", "U_CAT", unwind=14, bound="texts up to 6 characters"),
  u("pct_xencode", "pct_xencode", "h_pct", "U_PCT", "LEN=3", unwind=14, bound="texts up to 3 characters"),
  u("split4", "urlsplitn", "h_split", "U_SPLIT", "LEN=4", unwind=6, unwindset=["urlsplitn:1"], timeout=200, bound="texts of 4 characters"),
  u("split6", "urlsplitn", "h_split", "U_SPLIT", "LEN=6", unwind=8, unwindset=["urlsplitn:1"], timeout=300, bound="texts of 6 characters"),
]
NATIVE = [Native("url.c", kind="core", core=True, quick=10, thorough=60)]
ASSUMPTIONS = ["longer URLs are compared with a POSIX regular expression in the stand-in only", "isxdigit, isupper in the C locale; models of strspn, strcspn, memchr", "an empty first path segment after an authority (http://h//p) is refused by the code; the property takes that as given", "joining is only claimed for URLs whose host is a name, without percent escapes and empty parts"]
LEVEL = "other"
