def u(name, f, h, *d, **k):
    return Unit(name, "semver.c", None, [], functions=f.split(), harness=h, defs=list(d) + ["__NO_CTYPE"], dfcc=False, backend="cadical", timeout=300, checks=["--no-malloc-may-fail"], **k)
UNITS = []
for n in (0, 4, 5, 7, 9, 11):
    UNITS.append(u("nchk_%d" % n, "strnchk_semver", "h_nchk", "U_CHK", "LEN=%d" % n, unwind=n + 4, bound="every text of %d bytes" % n))
UNITS.append(u("nchk_pre", "strnchk_semver", "h_nchk", "U_CHK", "LEN=14", 'PRE="1.10.0-"', unwind=18, bound="every text of 7 bytes behind 1.10.0-"))
UNITS.append(u("chk_8", "strchk_semver", "h_chk", "U_CHK", "LEN=8", unwind=12, bound="every text of 8 characters"))
for a, b in ((5, 5), (5, 6), (7, 7), (8, 6), (9, 9)):
    UNITS.append(u("cmp_%d_%d" % (a, b), "strcmp_semver strncmp_semver", "h_cmp", "LEN=%d" % a, "LEN2=%d" % b, unwind=13, bound="versions of %d and %d characters" % (a, b)))
for a, b in ((9, 9), (11, 11), (10, 12)):
    UNITS.append(u("cmp_pre_%d_%d" % (a, b), "strcmp_semver strncmp_semver", "h_cmp", "LEN=%d" % a, "LEN2=%d" % b, 'PRE="1.0.0-"', unwind=15, bound="pre-releases of %d and %d characters" % (a - 6, b - 6)))
NATIVE = [Native("semver.c", src=["utils/unicode.c", "utils/strutils.c", "utils/compat.c", "utils/clp2.c", "utils/compat-src/snprintf.c"], quick=6, thorough=40)]
ASSUMPTIONS = ["longer versions are covered by the stand-in only", "isdigit, isalnum in the C locale"]
LEVEL = "other"
