----------------------------- MODULE Regularise -----------------------------
(* Smoothers that pull the value of a bin towards a mean.  Bins arrive one   *)
(* after another as pairs <<value, w>>, where w is the inverse variance of   *)
(* the value; w = 0 stands for a bin without uncertainty information, which  *)
(* only the neighbour variant admits.                                        *)
EXTENDS TLC, Json, SmoothOps

CONSTANTS Values, Weights, MaxBins,
          MinBins,
          Kind,      \* "mean", "prior", "neighbours" or "threshold"
          Priors,    \* possible prior values (kind "prior")
          Random

VARIABLES bins, prior, pc
vars == <<bins, prior, pc>>

\* regularisation by significance: nothing but the prior remains of a value closer
\* than Th = 5/2 deviations; otherwise the squared distance loses Th squared variances.
\* The result is the squared distance with the sign of the distance.
ByThreshold(b, p) ==
  LET d == PX(b) - p
      q == Sub(Q(d * d), Frac(25, 4 * PW(b)))
  IN  IF q[1] <= 0 THEN Q(0) ELSE IF d > 0 THEN q ELSE Neg(q)

Res(s, i) ==
  CASE Kind = "mean" -> ToMean(s, i)
    [] Kind = "prior" -> ToPrior(s, prior, i)
    [] Kind = "threshold" -> ByThreshold(s[i], prior)
    [] Kind = "neighbours" -> IF Len(s) < 3 THEN ToMean(s, i) ELSE ToNeighbours(s, i)
Result == [i \in DOMAIN bins |-> Res(bins, i)]

Target(s, i) ==
  CASE Kind = "mean" -> Mean(s)
    [] Kind = "prior" -> Q(prior)
    [] Kind = "neighbours" -> IF Len(s) < 3 THEN Mean(s) ELSE Mean(Informed(Window(s, i)))

Init == bins = <<>> /\ pc = "collect" /\ prior \in (IF Random THEN {RandomElement(Priors)} ELSE Priors)
AddBin ==
  /\ pc = "collect" /\ Len(bins) < MaxBins
  /\ \E x \in (IF Random THEN {RandomElement(Values)} ELSE Values), w \in (IF Random THEN {RandomElement(Weights)} ELSE Weights) :
       bins' = Append(bins, <<x, w>>)
  /\ UNCHANGED <<prior, pc>>
Smooth == pc = "collect" /\ Len(bins) >= MinBins /\ pc' = "done" /\ UNCHANGED <<bins, prior>>
Next == AddBin \/ Smooth
Spec == Init /\ [][Next]_vars

Usable == \A i \in DOMAIN bins : PW(bins[i]) > 0 \/ (Kind = "neighbours" /\ Len(bins) >= 3)
Done == pc = "done" /\ Usable

-----------------------------------------------------------------------------
\* a regularised value lies between the bin's own and the mean
LiesBetween == Done /\ Kind # "threshold" => \A i \in DOMAIN bins :
  Res(bins, i) # Undefined => Between(Res(bins, i), Q(PX(bins[i])), Target(bins, i))
\* of two bins with the same value (and window) the more uncertain one moves further
UncertainMoves == Done /\ Kind \in {"mean", "prior"} => \A i, j \in DOMAIN bins :
  PX(bins[i]) = PX(bins[j]) /\ PW(bins[i]) <= PW(bins[j]) =>
    LET t == Target(bins, i)
        Dist(k) == LET d == Sub(Res(bins, k), t) IN <<AbsI(d[1]), d[2]>>
    IN  Leq(Dist(i), Dist(j))
StayPut == Done /\ AllEqual(bins) /\ Kind \in {"mean", "neighbours"} => \A i \in DOMAIN bins :
  Res(bins, i) \in {Q(PX(bins[i])), Undefined}
Reordered(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Shrinks == Done /\ Kind = "threshold" => \A i \in DOMAIN bins :
  LET d == PX(bins[i]) - prior
  IN  IF d >= 0 THEN Between(Res(bins, i), Q(0), Q(d * d)) ELSE Between(Res(bins, i), Q(0), Q(-d * d))
OrderFree == Done /\ Kind # "neighbours" => \A i, j \in DOMAIN bins : Res(Reordered(bins, i, j), j) = Res(bins, i)
\* what lies outside the window has no influence
Local == Done /\ Kind = "neighbours" /\ Len(bins) >= 3 =>
  \A i, j \in DOMAIN bins : (j < i - 1 \/ j > i + 1) => \A x \in Values : Res([bins EXCEPT ![j] = <<x, 1>>], i) = Res(bins, i)

Emit == Done => PrintT("@" \o ToJson([kind |-> Kind, bins |-> bins, prior |-> prior, res |-> Result]))
=============================================================================
