----------------------------- MODULE SmoothOps -----------------------------
(* Elementary smoothers as exact functions.  A sample is a sequence of       *)
(* points <<value, w>> (bins in order) or <<value, w, coordinate>>, where w  *)
(* is the inverse variance of the value.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Rational

Undefined == <<0, 0>>
PX(b) == b[1]
PW(b) == b[2]
PC(b) == b[3]

SumW(s) == LET F(i) == Q(PW(s[i])) IN SumF(F, Len(s))
SumWX(s) == LET F(i) == Q(PW(s[i]) * PX(s[i])) IN SumF(F, Len(s))
Mean(s) == Div(SumWX(s), SumW(s))
\* weighted mean squared distance of the values from m
Spread(s, m) ==
  LET F(i) == LET d == Sub(Q(PX(s[i])), m) IN Mul(Q(PW(s[i])), Mul(d, d))
  IN  Div(SumF(F, Len(s)), SumW(s))

\* combination of value and mean with their inverse variances
Combine(x, w, m, v) ==
  IF w = 0 THEN m
  ELSE LET num == Add(Mul(Q(w * x), v), m)
           den == Add(Mul(Q(w), v), <<1, 1>>)
       IN  Div(num, den)

AllEqual(s) == \A i \in DOMAIN s : PX(s[i]) = PX(s[1])
ToMean(s, i) == IF Len(s) = 1 \/ AllEqual(s) THEN Q(PX(s[i])) ELSE Combine(PX(s[i]), PW(s[i]), Mean(s), Spread(s, Mean(s)))
ToPrior(s, p, i) ==
  IF \A j \in DOMAIN s : PX(s[j]) = p THEN Q(PX(s[i]))
  ELSE Combine(PX(s[i]), PW(s[i]), Q(p), Spread(s, Q(p)))

Window(s, i) == SubSeq(s, IF i = 1 THEN 1 ELSE i - 1, IF i = Len(s) THEN i ELSE i + 1)
\* only bins with information count
Informed(s) == SelectSeq(s, LAMBDA b : PW(b) > 0)
ToNeighbours(s, i) ==
  LET win == Informed(Window(s, i))
  IN  IF win = <<>> THEN Undefined
      ELSE IF AllEqual(win) THEN Q(PX(win[1]))
      ELSE Combine(PX(s[i]), PW(s[i]), Mean(win), Spread(win, Mean(win)))

-----------------------------------------------------------------------------
(* best monotone fit, by the max-min formula                                 *)
MeanOf(s, a, b) == Mean(SubSeq(s, a, b))
RECURSIVE Fold(_, _, _)
Fold(Op(_, _), S, f) == LET k == CHOOSE k \in S : TRUE
                        IN  IF Cardinality(S) = 1 THEN f[k] ELSE Op(f[k], Fold(Op, S \ {k}, f))
MinS(S, f) == Fold(Min, S, f)
MaxS(S, f) == Fold(Max, S, f)
Monotone(s, up, i) ==
  LET n == Len(s)
      Inner(a) == IF up THEN MinS(i..n, [b \in i..n |-> MeanOf(s, a, b)]) ELSE MaxS(i..n, [b \in i..n |-> MeanOf(s, a, b)])
      outer == [a \in 1..i |-> Inner(a)]
  IN  IF up THEN MaxS(1..i, outer) ELSE MinS(1..i, outer)

-----------------------------------------------------------------------------
(* weighted regression line through points with coordinates                  *)
LineAt(s, c) ==
  LET S0 == SumW(s)
      FX(i) == Q(PW(s[i]) * PC(s[i]))
      FXX(i) == Q(PW(s[i]) * PC(s[i]) * PC(s[i]))
      FXY(i) == Q(PW(s[i]) * PC(s[i]) * PX(s[i]))
      SX == SumF(FX, Len(s))
      SXX == SumF(FXX, Len(s))
      SXY == SumF(FXY, Len(s))
      SY == SumWX(s)
      det == Sub(Mul(S0, SXX), Mul(SX, SX))
  IN  IF IsZero(det) THEN Undefined
      ELSE Add(Div(Sub(Mul(SXX, SY), Mul(SX, SXY)), det), Mul(Q(c), Div(Sub(Mul(S0, SXY), Mul(SX, SY)), det)))

\* points sorted by coordinate (distinct coordinates)
RECURSIVE Sorted(_)
Sorted(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET k == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : PC(s[k]) <= PC(s[j])
       IN  <<s[k]>> \o Sorted(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))

\* monotone fit as a function of the coordinate: linear in between, constant outside
MonotoneAt(s0, up, c) ==
  LET s == Sorted(s0)
      n == Len(s)
      below == {k \in 1..n : PC(s[k]) <= c}
      above == {k \in 1..n : PC(s[k]) >= c}
  IN  IF below = {} THEN Monotone(s, up, 1)
      ELSE IF above = {} THEN Monotone(s, up, n)
      ELSE LET a == CHOOSE k \in below : \A j \in below : j <= k
               b == CHOOSE k \in above : \A j \in above : k <= j
           IN  IF a = b THEN Monotone(s, up, a)
               ELSE LET fa == Monotone(s, up, a)
                        fb == Monotone(s, up, b)
                    IN  Add(fa, Mul(Sub(fb, fa), Frac(c - PC(s[a]), PC(s[b]) - PC(s[a]))))
=============================================================================
