------------------------------- MODULE FP -------------------------------
(* Real arithmetic. Every operator denotes the function of the reals named by its comment; TLC evaluates them as     *)
(* IEEE doubles (java/FPOverrides.java). The bodies below are never evaluated.                                       *)
EXTENDS Integers
Undef     == CHOOSE c \in {} : TRUE
a ++ b    == Undef          \* a + b
a -- b    == Undef          \* a - b
a ** b    == Undef          \* a * b
a // b    == Undef          \* a / b
Neg(a)    == Undef          \* -a
FAbs(a)   == Undef          \* |a|
Sqrt(a)   == Undef
Cos(a)    == Undef
Sin(a)    == Undef
Tan(a)    == Undef
Atan2(y, x) == Undef
Exp(a)    == Undef
Log(a)    == Undef
Sinh(a)   == Undef
Cosh(a)   == Undef
Asinh(a)  == Undef
Pow(a, b) == Undef          \* a^b
FMin(a, b) == Undef
FMax(a, b) == Undef
Lt(a, b)  == Undef          \* a < b   (FALSE if either is NaN)
Le(a, b)  == Undef          \* a <= b
FEq(a, b) == Undef          \* a = b
IsFin(a)  == Undef          \* neither NaN nor infinite
IsInf(a)  == Undef
FloorInt(a) == Undef        \* floor of a as a TLA+ integer
Str(a)    == Undef          \* printable form
Lit(s)    == Undef          \* number written in the string s
Nums(s)   == Undef          \* tuple of the numbers written in s, separated by spaces
Sum(Op(_), n)     == Undef  \* Op(0) + ... + Op(n-1)
SumV(Op(_), n, k) == Undef  \* the same for Op returning k-tuples

Pi   == Lit("3.14159265358979323846")
Half == Lit("0.5")
Inf  == Lit("inf")
Sq(a) == a ** a
Ge(a, b) == Le(b, a)
Gt(a, b) == Lt(b, a)
(* composite 5-point Gauss-Legendre quadrature of f over [a,b] in n panels *)
GLx == <<Lit("-0.906179845938664"), Lit("-0.538469310105683"), 0, Lit("0.538469310105683"), Lit("0.906179845938664")>>
GLw == <<Lit("0.236926885056189"), Lit("0.478628670499366"), Lit("0.568888888888889"), Lit("0.478628670499366"), Lit("0.236926885056189")>>
Quad(f(_), a, b, n) ==
  LET h == (b -- a) // n
      g(k) == LET p == k \div 5  q == (k % 5) + 1
              IN GLw[q] ** f(a ++ h ** (p ++ Half ++ Half ** GLx[q]))
  IN Half ** h ** Sum(g, 5*n)
(* |a-b| <= tol * scale *)
Close(a, b, tol, scale) == Le(FAbs(a -- b), tol ** scale)
=========================================================================
