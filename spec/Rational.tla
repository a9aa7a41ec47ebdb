------------------------------ MODULE Rational ------------------------------
(* Exact fractions <<num, den>> with den > 0, kept in lowest terms.          *)
EXTENDS Integers, Sequences

RECURSIVE GcdPos(_, _)
GcdPos(a, b) == IF b = 0 THEN a ELSE GcdPos(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Gcd(a, b) == GcdPos(AbsI(a), AbsI(b))

Frac(n, d) == LET g == Gcd(n, d)
                  s == IF d < 0 THEN -1 ELSE 1
              IN  IF g = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
Q(n) == <<n, 1>>

\* cross-reducing before multiplying keeps the intermediate numbers small
Mul(a, b) == LET x == Frac(a[1], b[2])
                 y == Frac(b[1], a[2])
             IN  <<x[1] * y[1], x[2] * y[2]>>
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Add(a, b) == LET g == Gcd(a[2], b[2])
             IN  Frac(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
IsZero(a) == a[1] = 0

\* comparison by continued division, without large products
RECURSIVE LessPos(_, _, _, _)
LessPos(a, b, c, d) ==   \* a/b < c/d for non-negative a, c and positive b, d
  LET p == a \div b
      q == c \div d
  IN  IF p # q THEN p < q
      ELSE IF c % d = 0 THEN FALSE
      ELSE IF a % b = 0 THEN TRUE
      ELSE LessPos(d, c % d, b, a % b)
Less(a, b) ==
  IF a[1] < 0 /\ b[1] >= 0 THEN TRUE
  ELSE IF a[1] >= 0 /\ b[1] < 0 THEN FALSE
  ELSE IF a[1] >= 0 THEN LessPos(a[1], a[2], b[1], b[2])
  ELSE LessPos(-b[1], b[2], -a[1], a[2])
Leq(a, b) == ~Less(b, a)
Min(a, b) == IF Less(a, b) THEN a ELSE b
Max(a, b) == IF Less(a, b) THEN b ELSE a
Between(x, a, b) == Leq(Min(a, b), x) /\ Leq(x, Max(a, b))

RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN <<0, 1>> ELSE Add(SumF(F, n - 1), F(n))
=============================================================================
