----------------------------- MODULE QuantileFit -----------------------------
(* Functions through the quantiles of a distribution.  Points (position,     *)
(* value) are collected one by one with rising position, then a function of  *)
(* the chosen kind is fitted.                                                *)
(*  gauss:  position z stands for the quantile at which a standard normal    *)
(*          distribution has the value z / 2; the function is the line of    *)
(*          least squares through the points                                 *)
(*  spline: position i stands for the quantile i / Grid                      *)
(*  nbinom, expo: the values are those of one member of the family, which    *)
(*          the fit has to find                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
R == INSTANCE Rational

CONSTANTS Kind, Positions, Values, Members, MinPoints, MaxPoints, Grid

VARIABLES pts, member, pc
vars == <<pts, member, pc>>

N == Len(pts)
X(i) == pts[i][1]
V(i) == pts[i][2]
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE SumTo(F, n - 1) + F(n)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN <<1, 1>> ELSE R!Mul(q, Pow(q, n - 1))

\* ---- members of the families: negative binomial with n successes of chance a/b
Mass(m, k) == R!Mul(R!Q(Choose(k + m[1] - 1, k)), R!Mul(Pow(R!Frac(m[2], m[3]), m[1]), Pow(R!Frac(m[3] - m[2], m[3]), k)))
RECURSIVE Cdf(_, _)
Cdf(m, k) == IF k < 0 THEN <<0, 1>> ELSE R!Add(Mass(m, k), Cdf(m, k - 1))
Mean(m) == R!Frac(m[1] * (m[3] - m[2]), m[2])
Variance(m) == R!Frac(m[1] * (m[3] - m[2]) * m[3], m[2] * m[2])

Init == pts = <<>> /\ pc = "collect" /\ member \in Members
Observe ==
  /\ pc = "collect" /\ N < MaxPoints
  /\ \E x \in Positions : \E v \in Values :
       /\ N > 0 => x > X(N) /\ (Kind # "spline" => v >= V(N))
       /\ Kind \in {"nbinom", "expo"} => v = x     \* values and positions are the same thing there
       /\ pts' = Append(pts, <<x, v>>)
  /\ UNCHANGED <<pc, member>>
Fit ==
  /\ pc = "collect" /\ N >= MinPoints
  /\ Kind = "gauss" => V(N) > V(1)
  /\ pc' = "done" /\ UNCHANGED <<pts, member>>
Next == Observe \/ Fit
Spec == Init /\ [][Next]_vars

\* ---- the line of least squares
Sz == SumTo(LAMBDA i : X(i), N)
Sv == SumTo(LAMBDA i : V(i), N)
Szz == SumTo(LAMBDA i : X(i) * X(i), N)
Szv == SumTo(LAMBDA i : X(i) * V(i), N)
Det == N * Szz - Sz * Sz
Slope == R!Frac(N * Szv - Sz * Sv, Det)
Level == R!Frac(Szz * Sv - Sz * Szv, Det)
Line(z) == R!Add(Level, R!Mul(Slope, R!Q(z)))
Residual(i) == R!Sub(R!Q(V(i)), Line(X(i)))

\* ---- the cubic through the first four points; all points may lie on it
RECURSIVE Times(_, _, _)
Times(i, x, j) == IF j = 0 THEN <<1, 1>>
  ELSE IF j = i THEN Times(i, x, j - 1) ELSE R!Mul(R!Frac(x - X(j), X(i) - X(j)), Times(i, x, j - 1))
Cubic(x) == R!SumF(LAMBDA i : R!Mul(R!Q(V(i)), Times(i, x, 4)), 4)
OneCubic == \A i \in 5..N : Cubic(X(i)) = R!Q(V(i))
Known(x) == OneCubic \/ \E i \in 1..N : X(i) = x
At(x) == IF \E i \in 1..N : X(i) = x THEN R!Q(V(CHOOSE i \in 1..N : X(i) = x)) ELSE Cubic(x)

-----------------------------------------------------------------------------
Done == pc = "done"
\* the line is the best one: residuals are orthogonal to the line
LeastSquares == Done /\ Kind = "gauss" =>
  /\ R!IsZero(R!SumF(Residual, N))
  /\ R!IsZero(R!SumF(LAMBDA i : R!Mul(R!Q(X(i)), Residual(i)), N))
Rising == Done /\ Kind = "gauss" => R!Less(R!Q(0), Slope)
Through == Done /\ Kind = "spline" => \A i \in 1..4 : Cubic(X(i)) = R!Q(V(i))
Distribution == Done /\ Kind = "nbinom" =>
  \A i \in 1..N : R!Less(Cdf(member, X(i) - 1), Cdf(member, X(i))) /\ R!Less(Cdf(member, X(i)), R!Q(1))

Emit == Done => PrintT("@" \o ToJson(
  CASE Kind = "gauss" -> [kind |-> Kind, pts |-> pts, level |-> Level, slope |-> Slope]
    [] Kind = "spline" -> [kind |-> Kind, pts |-> pts, at |-> {<<x, At(x)>> : x \in {y \in 0..Grid : Known(y)}}]
    [] Kind = "nbinom" -> [kind |-> Kind, pts |-> [i \in 1..N |-> <<X(i), Cdf(member, X(i))>>], mean |-> Mean(member), variance |-> Variance(member)]
    [] Kind = "expo" -> [kind |-> Kind, pts |-> pts, rate |-> member]))
=============================================================================
