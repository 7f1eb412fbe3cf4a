#include "utils/infixcalc.c"
#ifdef U_BINARY
/* every operator but the power: all operands */
int w_op, w_a, w_b;
static int binary_eval(Operator op, int arg1, int arg2)
__CPROVER_requires(op == w_op && arg1 == w_a && arg2 == w_b)
__CPROVER_requires(OPS && (op != '/' && op != '%' || (arg2 != 0 && !(arg1 == INT_MIN && arg2 == -1))))
__CPROVER_requires(op == '+' ==> ((long)arg1 + arg2 <= INT_MAX && (long)arg1 + arg2 >= INT_MIN))
__CPROVER_requires(op == '-' ==> ((long)arg1 - arg2 <= INT_MAX && (long)arg1 - arg2 >= INT_MIN))
__CPROVER_requires(op == '*' ==> !__CPROVER_overflow_mult(arg1, arg2))
__CPROVER_assigns()
__CPROVER_ensures(op == '|' ==> __CPROVER_return_value == (arg1 != 0 || arg2 != 0))
__CPROVER_ensures(op == '&' ==> __CPROVER_return_value == (arg1 != 0 && arg2 != 0))
__CPROVER_ensures(op == '=' ==> __CPROVER_return_value == (arg1 == arg2))
__CPROVER_ensures(op == '!' ==> __CPROVER_return_value == (arg1 != arg2))
__CPROVER_ensures(op == '>' ==> __CPROVER_return_value == (arg1 > arg2))
__CPROVER_ensures(op == '<' ==> __CPROVER_return_value == (arg1 < arg2))
__CPROVER_ensures(op == '+' ==> __CPROVER_return_value == (long)arg1 + arg2)
__CPROVER_ensures(op == '-' ==> __CPROVER_return_value == (long)arg1 - arg2)
#ifdef ARITH
__CPROVER_ensures(__CPROVER_return_value == (arg1 ARITH arg2))
#endif
;
void harness(void) { int op, a, b; __CPROVER_assume(op == w_op && a == w_a && b == w_b); binary_eval(op, a, b); VF_REACH("binary_eval"); }
#endif

#ifdef U_EVAL
/* one evaluation step: takes exactly the two topmost values (in order) and the result replaces them; with fewer values
   or an impossible division it is refused; it never touches the rest of the stack. Stacks of any height. */
static Stack S; static int *items; static int w_op, w_a, w_b, w_r; size_t w_n;
int snprintf(char *s, size_t n, const char *f, ...) { return 0; }
static int binary_eval(Operator op, int arg1, int arg2)
__CPROVER_requires(op == w_op && arg1 == w_a && arg2 == w_b && ((op != '/' && op != '%') || (arg2 != 0 && !(arg1 == INT_MIN && arg2 == -1))))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == w_r)
;
static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
__CPROVER_requires(op == w_op && vstack == &S && S.items == items && S.len == w_n)
__CPROVER_assigns(S.len; w_n >= 2: items[w_n - 2])
__CPROVER_ensures(__CPROVER_return_value == ((w_n < 2 || ((w_op == '/' || w_op == '%') && (w_b == 0 || (w_a == INT_MIN && w_b == -1))) || w_op == '(' || w_op == ')') ? -1 : 0))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> (S.len == w_n - 1 && items[S.len - 1] == w_r))
;
void harness(void)
{
  size_t size; Operator op; char *err; size_t el;
  __CPROVER_assume(size <= ((size_t)1 << 40) && w_n <= size && (w_n || size == 0 || 1));
  items = malloc(size * sizeof(int)); __CPROVER_assume(items || size == 0);
  S.items = items; S.size = size; S.len = w_n;
  if (w_n >= 2) { __CPROVER_assume(items[w_n-1] == w_b && items[w_n-2] == w_a); }
  __CPROVER_assume(op == w_op && get_opinfo(op) != NULL);
  eval(op, &S, err, el);
  VF_REACH("eval");
}
#endif

#ifdef U_PUSH
/* push appends one item and keeps every other, growing the storage when it is full */
static Stack S; static int *items; size_t w_n; int w_old;
static void push(Stack *stack, int item)
__CPROVER_requires(stack == &S && S.items == items && S.len == w_n && (g_k < w_n ==> items[g_k] == w_old))
__CPROVER_assigns(S.len, S.size, S.items; S.items != NULL: __CPROVER_object_whole(S.items))
__CPROVER_frees(S.items)
__CPROVER_ensures(S.len == w_n + 1 && S.size >= S.len && S.items[w_n] == item)
__CPROVER_ensures(g_k < w_n ==> S.items[g_k] == w_old)
;
void harness(void)
{
  size_t size; int item;
  __CPROVER_assume(size <= 300 && w_n <= size);
  items = size ? malloc(size * sizeof(int)) : NULL; __CPROVER_assume(items || size == 0);
  S.items = items; S.size = size; S.len = w_n;
  if (g_k < w_n) __CPROVER_assume(items[g_k] == w_old);
  push(&S, item);
  VF_REACH("push");
}
#endif

#ifdef U_CALC
/* the whole calculator on one shape of expression, for all operators (OPn) and all values of the variables: operands are
   combined by precedence and from the left. The operation itself is uninterpreted here (see U_BINARY). */
int snprintf(char *s, size_t n, const char *f, ...) { if (n) s[0] = 'e'; return 1; }
int __CPROVER_uninterpreted_op(int op, int a, int b);
#define F __CPROVER_uninterpreted_op
static int eval(Operator op, Stack *vstack, char *err, size_t errlen);
static int binary_eval(Operator op, int arg1, int arg2)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == F(op, arg1, arg2))
;
static int pr(int c) { switch (c) { case '|': return 1; case '&': return 2; case '=': return 3; case '!': return 4; case '<': case '>': return 5;
  case '+': case '-': return 6; case '*': case '/': case '%': return 7; case '^': return 8; } return 0; }
void harness(void)
{
  char text[] = TEXT; InfixCalcVariable v[3]; char err[4] = "x"; int got, i; char o[2]; int a, b, c, want;
  v[0].name = "a"; v[1].name = "b"; v[2].name = "c"; v[0].value = a; v[1].value = b; v[2].value = c;
  const char ops0[] = OPS0, ops1[] = OPS1; int j;
  for (i = 0; i < (int)sizeof(ops0)-1; i++) for (j = 0; j < (int)sizeof(ops1)-1; j++) {
    o[0] = ops0[i]; o[1] = ops1[j];
    text[POS0] = o[0]; text[POS1] = o[1]; err[0] = 'x';
    got = infixcalc(text, v, 3, err, 4);
    want = WANT;
    __CPROVER_assert(got == want && err[0] == 0, "value of the expression");
  }
  VF_REACH("infixcalc");
}
#endif
#ifdef U_VAR
/* the variable a text begins with: the longest identifier, compared with whole names */
static char str[7], n0[4], n1[4]; static InfixCalcVariable vars[2]; size_t w_len;
#define AL(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z') || (c) == '_')
#define AN(c) (AL(c) || ((c) >= '0' && (c) <= '9'))
static size_t len(const char *s) { size_t i; for (i = 0; s[i]; i++) ; return i; }
static int same(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static const InfixCalcVariable *w_want;
static const InfixCalcVariable *get_variable(const char *s, const InfixCalcVariable *v, size_t nvars)
__CPROVER_requires(s == str && (v == vars || v == NULL) && nvars <= 2)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == w_want)
;
void harness(void)
{
  size_t nv, i, n = 0; _Bool nul;
  str[6] = n0[3] = n1[3] = 0; vars[0].name = n0; vars[1].name = n1;
  __CPROVER_assume(nv <= 2);
  if (AL(str[0])) while (AN(str[n])) n++;
  w_want = NULL;
  if (n && !nul) for (i = nv; i; i--) if (len(vars[i-1].name) == n && same(vars[i-1].name, str, n)) w_want = vars + i - 1;
  get_variable(str, nul ? NULL : vars, nv);
  VF_REACH("get_variable");
}
#endif
