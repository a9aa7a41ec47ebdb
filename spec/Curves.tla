------------------------------- MODULE Curves -------------------------------
(* Smoothers that fit a curve to the bins of a feature.  The values of the    *)
(* bins are a combination of basis curves that are orthogonal on the bins, so *)
(* with equally certain bins the least-squares curve of a family keeps some   *)
(* of the coefficients and drops the others.  Lines through bins of unequal   *)
(* certainty are given by the normal equations.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Bases,    \* records [n, g, sq]: g[k+1][j+1] is the value of the k-th basis curve at bin j, sq its sum of squares
          Coefs,    \* coefficients
          Top,      \* highest basis curve with a coefficient other than zero
          Certs,    \* certainties (inverse variances) of the bins, in hundredths
          Kinds,    \* "orth", "poly", "lin", "linpos", "wave", "exact", "line"
          Points    \* kind "line": possible positions

VARIABLES kind, basis, par, cert, coef, pts, pc
vars == <<kind, basis, par, cert, coef, pts, pc>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumS(s) == SumTo(s, Len(s))

N == basis.n
G(k, j) == basis.g[k + 1][j + 1]
Norm(k) == basis.sq[k + 1]
NormOf(k) == SumS([j \in 1..N |-> G(k, j - 1) * G(k, j - 1)])
C(k) == IF k + 1 <= Len(coef) THEN coef[k + 1] ELSE 0
Degrees == 0 .. (Len(basis.g) - 1)
Highest == Len(basis.g) - 1

-----------------------------------------------------------------------------
\* weight of the k-th term in the sum of squares, in hundredths
Term(k) == IF k > Highest THEN 0 ELSE cert * C(k) * C(k) * Norm(k)
\* what a fit of degree k leaves over
RECURSIVE Left(_)
Left(k) == IF k >= Highest THEN 0 ELSE Term(k + 1) + Left(k + 1)

\* orthogonal polynomials: degrees are added from two on, until the rest is less than
\* the degrees of freedom or terms have been insignificant four times
Enough(k) == Left(k) < 100 * (N - (k + 1))
Weak(k) == (IF Term(k) < 384 THEN 1 ELSE 0) + (IF Term(k) + Term(k - 1) < 600 THEN 1 ELSE 0)
RECURSIVE Walk(_, _)
Walk(k, weak) ==
  LET w == weak + Weak(k) IN
  IF Enough(k) \/ w >= 4 \/ k = N - 1 \/ k = 20 THEN k ELSE Walk(k + 1, w)
Reduced == LET p == (N * 2) \div 10 IN (IF p < 2 THEN 2 ELSE p) - 1
OrthDegree ==
  IF N <= 2 THEN 0
  ELSE IF N = 3 THEN 1
  ELSE LET k == Walk(2, 0) IN IF k = N - 1 THEN Reduced ELSE k

Keep ==
  CASE kind = "orth" -> 0 .. OrthDegree
    [] kind = "poly" -> 0 .. par
    [] kind = "lin" -> {0, 1}
    [] kind = "linpos" -> IF C(1) < 0 THEN {0} ELSE {0, 1}
    \* seasonal curves: terms 2h-1 and 2h are sine and cosine of the h-th harmonic
    [] kind = "wave" -> 1 .. (2 * par)
    [] kind = "wave0" -> 0 .. (2 * par)
    [] kind = "exact" -> 0 .. Highest
Kept == [k \in 1..Len(coef) |-> IF (k - 1) \in Keep THEN coef[k] ELSE 0]

-----------------------------------------------------------------------------
\* weighted line through points <<x, y, w>>
SW == SumS([i \in DOMAIN pts |-> pts[i][3]])
SX == SumS([i \in DOMAIN pts |-> pts[i][3] * pts[i][1]])
SXX == SumS([i \in DOMAIN pts |-> pts[i][3] * pts[i][1] * pts[i][1]])
SY == SumS([i \in DOMAIN pts |-> pts[i][3] * pts[i][2]])
SXY == SumS([i \in DOMAIN pts |-> pts[i][3] * pts[i][1] * pts[i][2]])
Det == SW * SXX - SX * SX
Alpha == Frac(SXX * SY - SX * SXY, Det)
Beta == Frac(SW * SXY - SX * SY, Det)

-----------------------------------------------------------------------------
Init ==
  /\ pc = "pick" /\ coef = <<>> /\ pts = <<>>
  /\ kind \in Kinds /\ basis \in Bases /\ cert \in Certs
  /\ par \in 1..3
Top1 == IF Top < Highest THEN Top ELSE Highest
AddTerm ==
  /\ pc = "pick" /\ kind # "line" /\ Len(coef) <= Top1
  /\ \E c \in Coefs : coef' = Append(coef, IF kind = "exact" /\ Len(coef) > par THEN 0 ELSE c)
  /\ UNCHANGED <<kind, basis, par, cert, pts, pc>>
AddPoint ==
  /\ pc = "pick" /\ kind = "line" /\ Len(pts) < N
  /\ \E x \in Points, y \in Coefs, w \in {1, 2, 5} : pts' = Append(pts, <<x, y, w>>)
  /\ UNCHANGED <<kind, basis, par, cert, coef, pc>>
Fit ==
  /\ pc = "pick"
  /\ IF kind = "line" THEN Len(pts) = N ELSE Len(coef) = Top1 + 1
  /\ pc' = "done" /\ UNCHANGED <<kind, basis, par, cert, coef, pts>>
Next == AddTerm \/ AddPoint \/ Fit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Curve == pc = "done" /\ kind # "line"
Polynomial == kind \in {"orth", "poly", "lin", "linpos"}
Y(j) == SumS([k \in 1..Len(coef) |-> coef[k] * G(k - 1, j)])
Fitted(j) == SumS([k \in 1..Len(coef) |-> Kept[k] * G(k - 1, j)])
\* the basis is orthogonal on the bins
Orthogonal == pc = "pick" /\ coef = <<>> /\ kind = "orth" /\ par = 1 => (\A k \in Degrees : NormOf(k) = Norm(k)) /\ \A a, b \in Degrees : a < b => SumS([j \in 1..N |-> G(a, j - 1) * G(b, j - 1)]) = 0
\* what is left over has no part in the family: no curve of the family is closer
Closest == Curve /\ Polynomial => \A k \in Keep \cap Degrees : SumS([j \in 1..N |-> (Y(j - 1) - Fitted(j - 1)) * G(k, j - 1)]) = 0
\* a curve of the family is reproduced
Reproduced == Curve /\ kind # "orth" /\ (\A k \in Degrees : k \in Keep \/ C(k) = 0) => Kept = coef
\* the degree is the smallest from two on that leaves less than the degrees of freedom,
\* unless the search was given up before
Smallest == Curve /\ kind = "orth" /\ N >= 4 =>
  /\ OrthDegree < N - 1
  /\ \A k \in 2..(OrthDegree - 1) : ~Enough(k)
\* normal equations and equivariance under added lines
LineOk == pc = "done" /\ kind = "line" /\ Det # 0 =>
  LET R(i) == Sub(Q(pts[i][2]), Add(Alpha, Mul(Beta, Q(pts[i][1]))))
      RECURSIVE Tot(_, _)
      Tot(i, m) == IF i = 0 THEN Q(0) ELSE Add(Mul(R(i), Q(pts[i][3] * m[i])), Tot(i - 1, m))
  IN  /\ IsZero(Tot(Len(pts), [i \in DOMAIN pts |-> 1]))
      /\ IsZero(Tot(Len(pts), [i \in DOMAIN pts |-> pts[i][1]]))

\* decisions that rounding may turn round are left out
Tight == kind = "orth" /\ N >= 4 /\ \E k \in 2..(N - 1) : (k < N - 1 /\ Left(k) = 100 * (N - (k + 1))) \/ Term(k) = 384 \/ Term(k) + Term(k - 1) = 600
Emit == pc = "done" /\ (kind = "line" => Det # 0) =>
  PrintT("@" \o ToJson([kind |-> kind, n |-> N, par |-> par, cert |-> cert, coef |-> coef, kept |-> IF kind = "line" THEN <<>> ELSE Kept,
                        tight |-> Tight, pts |-> pts, line |-> IF kind = "line" THEN <<Alpha, Beta>> ELSE <<>>]))
=============================================================================
