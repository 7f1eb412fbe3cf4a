/* V01: semantic versioning 2.0.0, read character by character (valid) and identifier by identifier (order).
   `ref_cmp` deviates in one place, see known_findings.txt: a release is ordered *before* its pre-releases, as
   src/utils/tests/test_strutils.c demands. */
static int ref_dig(int c) { return c >= '0' && c <= '9'; }
static int ref_idc(int c) { return ref_dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-'; }
static int ref_valid(const char *v, int n)      /* length of v[0..min(n,strlen)) if that is a version, otherwise -1 */
{
  int i, part = 0, len = 0, zero = 0, num = 1;
  for (i = 0; i < n && v[i]; i++) {
    int c = v[i];
    if (part < 3) {
      if (ref_dig(c)) { if (len && zero) return -1; if (!len) zero = c == '0'; len = 1; }
      else if (!len) return -1;
      else if (part < 2) { if (c != '.') return -1; part++; len = 0; }
      else if (c == '-') { part = 3; len = 0; num = 1; }
      else if (c == '+') { part = 4; len = 0; }
      else return -1;
    } else if (ref_idc(c)) { if (!len) { zero = c == '0'; num = 1; } if (!ref_dig(c)) num = 0; len++; }
    else {
      if (!len || (part == 3 && num && zero && len > 1)) return -1;
      if (c == '+' && part == 3) part = 4; else if (c != '.') return -1;
      len = 0;
    }
  }
  if (part < 2 || !len || (part == 3 && num && zero && len > 1)) return -1;
  return i;
}
static int ref_num(const char *a, int n, const char *b, int m)      /* numbers without leading zeros */
{
  int i;
  if (n != m) return n < m ? -1 : 1;
  for (i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
static int ref_len(const char *v, int *num) { int n = 0; *num = 1; while (ref_idc(v[n])) { if (!ref_dig(v[n])) *num = 0; n++; } return n; }
static int ref_cmp(const char *a, const char *b)                    /* both valid */
{
  int i, n, m, x, y, d;
  for (i = 0; i < 3; i++) {
    for (n = 0; ref_dig(a[n]); n++); for (m = 0; ref_dig(b[m]); m++);
    if ((d = ref_num(a, n, b, m))) return d;
    a += n; b += m;
    if (i < 2) { a++; b++; }
  }
  if (*a != '-' || *b != '-') return *a != '-' ? (*b == '-' ? -1 : 0) : 1;   /* deviation: should be 1, 0, -1 */
  for (;;) {
    a++; b++;
    n = ref_len(a, &x); m = ref_len(b, &y);
    if (x && y) d = ref_num(a, n, b, m);
    else if (x != y) d = x ? -1 : 1;
    else { for (i = 0; i < n && i < m && a[i] == b[i]; i++); d = i == n || i == m ? (n > m) - (n < m) : a[i] < b[i] ? -1 : 1; }
    if (d) return d;
    a += n; b += m;
    if (*a != '.' || *b != '.') return *a == '.' ? 1 : *b == '.' ? -1 : 0;
  }
}
