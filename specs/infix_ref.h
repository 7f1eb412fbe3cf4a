/* E01: reference evaluator by precedence climbing, independent of the operator stacks of the real one.
   status: 0 value, 1 malformed or impossible, 2 outside the domain (an intermediate value that is not an int) */
static const InfixCalcVariable *V; static size_t NV;
static const char *P; static int st;
static int isal(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int isdg(int c) { return c >= '0' && c <= '9'; }
static void ws(void) { while (*P == ' ' || (*P >= '\t' && *P <= '\r')) P++; }
static int prec(int c) { switch (c) { case '|': return 1; case '&': return 2; case '=': return 3; case '!': return 4; case '<': case '>': return 5;
  case '+': case '-': return 6; case '*': case '/': case '%': return 7; case '^': return 8; } return 0; }
static long expr(int min);
static long primary(void)
{
  ws();
  if (*P == '(') { long v; P++; v = expr(1); ws(); if (st == 1) return 0; if (*P != ')') { st = 1; return 0; } P++; return v; }
  if (isdg(*P)) {
    __int128 v = 0; int base = 10, any = 0;
    if (P[0] == '0' && (P[1] == 'x' || P[1] == 'X') && (isdg(P[2]) || (P[2] >= 'a' && P[2] <= 'f') || (P[2] >= 'A' && P[2] <= 'F'))) { base = 16; P += 2; }
    else if (P[0] == '0') base = 8;
    for (;; P++) {
      int d = isdg(*P) ? *P - '0' : *P >= 'a' && *P <= 'f' ? *P - 'a' + 10 : *P >= 'A' && *P <= 'F' ? *P - 'A' + 10 : 99;
      if (d >= base) break;
      if (v < ((__int128)1 << 100)) v = v*base + d;
      any = 1;
    }
    (void)any;
    if (v > INT_MAX) { st = 1; return 0; }
    return (long)v;
  }
  if (isal(*P)) {
    const char *s = P; size_t i, n;
    while (isal(*P) || isdg(*P)) P++;
    n = P - s;
    for (i = 0; i < NV; i++) if (strlen(V[i].name) == n && !memcmp(V[i].name, s, n)) return V[i].value;
  }
  st = 1; return 0;
}
static int dom;
static void range(__int128 v) { if (st == 0 && (v > INT_MAX || v < INT_MIN)) { st = 2; dom = 1; } }
static int impossible;    /* division by zero: reported whatever follows, unless the value was out of the domain before */
static long apply(int op, long a, long b)
{
  __int128 v = 0; long i;
  if (st) return 0;
  switch (op) {
  case '|': v = a || b; break; case '&': v = a && b; break; case '=': v = a == b; break; case '!': v = a != b; break;
  case '<': v = a < b; break; case '>': v = a > b; break; case '+': v = (__int128)a + b; break; case '-': v = (__int128)a - b; break;
  case '*': v = (__int128)a * b; break;
  case '/': if (b == 0 || (a == INT_MIN && b == -1)) { impossible = 1; st = 3; return 0; } v = a / b; break;
  case '%': if (b == 0 || (a == INT_MIN && b == -1)) { impossible = 1; st = 3; return 0; } v = a % b; break;
  case '^': if (b < 0 || b > 100000) { st = 2; dom = 1; return 0; } for (v = 1, i = 0; i < b; i++) { v *= a; if (v > INT_MAX || v < INT_MIN) { st = 2; dom = 1; return 0; } } break;
  }
  range(v);
  return (long)v;
}
static long expr(int min)
{
  long v = primary();
  if (st == 1) return 0;
  for (;;) {
    int op, p; long w;
    ws(); op = *P; p = prec(op);
    if (!p || p < min) return v;
    P++;
    w = expr(p + 1);
    if (st == 1) return 0;
    v = apply(op, v, w);
  }
}
/* st 2/3 keep parsing (so that malformed text is still recognised) */
static int refer(const char *s, long *v)
{
  P = s; st = 0; impossible = dom = 0; *v = expr(1);
  if (st != 1) { ws(); if (*P) st = 1; }
  return dom ? 2 : st == 3 ? 1 : st;
}
