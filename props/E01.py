def u(name, f, *d, **k):
    return Unit(name, "infix.c", f, [], defs=d + ("__NO_CTYPE",), keep=["/repo/src/utils/infixcalc.c:_opinfo"], unwind=k.pop("unwind", 17), **k)
UNITS = [
  u("binary_eval", "binary_eval", "U_BINARY", "OPS=(op != '^' && op != '*' && op != '/' && op != '%')"),
  u("binary_eval_times", "binary_eval", "U_BINARY", "OPS=(op == '*')", "ARITH=*", backend="cvc5"),
  u("binary_eval_div", "binary_eval", "U_BINARY", "OPS=(op == '/')", "ARITH=/", backend="cvc5"),
  u("binary_eval_mod", "binary_eval", "U_BINARY", "OPS=(op == '%')", "ARITH=%", backend="cvc5"),
  u("eval", "eval", "U_EVAL", replace=["binary_eval"]),
  u("push", "push", "U_PUSH", nofail=True),
  u("get_variable", "get_variable", "U_VAR", bound="texts up to 6 characters, two variables with names up to 3 characters"),
]
NATIVE = [Native("infix.c", src=["utils/infixcalc.c"], quick=8, thorough=60)]
ASSUMPTIONS = ["intermediate values that are no int are outside the property", "memory allocation succeeds (a failing one aborts by design)", "ctype and strtol are those of the C library (CBMC model in the proofs)"]
LEVEL = "other"
NOT_VERIFIED = ["infixcalc on texts of other shapes (bounded native comparison with a reference evaluator)", "infixcalc_depend (native)"]
S = (("flat", "a+b+c", 1, 3, "pr(o[0]) >= pr(o[1]) ? F(o[1], F(o[0], a, b), c) : F(o[0], a, F(o[1], b, c))", "|&=!<+*^", "|&=!>-*^"),
     ("left", "(a+b)+c", 2, 5, "F(o[1], F(o[0], a, b), c)", "|-^", "|+^"), ("right", "a+(b+c)", 1, 4, "F(o[0], a, F(o[1], b, c))", "|-^", "|+^"))
for n, t, p0, p1, w, f, g in S:
  for c in f:
    UNITS.append(u("calc_%s_%d" % (n, ord(c)), None, "U_CALC", 'OPS0="%s"' % c, 'OPS1="%s"' % g, 'TEXT="%s"' % t, "POS0=%d" % p0, "POS1=%d" % p1,
                   "WANT=(%s)" % w, replace=["binary_eval"], functions=["infixcalc"], nofail=True, unwindset=["harness.0:13", "harness.1:13"],
                   bound="texts of the shape %s with one operator of each precedence in each place, all values" % t))
