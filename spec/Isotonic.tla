------------------------------ MODULE Isotonic ------------------------------
(* Best monotone fit of bin values by pooling adjacent violators.  Which     *)
(* violating pair is pooled next is left open; the outcome is the same for   *)
(* all orders and is the weighted least-squares monotone fit.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Values, Weights, MinBins, MaxBins, Random

S == INSTANCE SmoothOps

VARIABLES bins,    \* <<value, w>> per bin, w the inverse variance
          dir,     \* "up", "down" or "auto"
          blocks,  \* sequence of <<first bin, last bin>>
          pc
vars == <<bins, dir, blocks, pc>>

X(i) == bins[i][1]
W(i) == bins[i][2]
RECURSIVE SumRange(_, _, _)
SumRange(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumRange(F, a + 1, b)
MeanOf(a, b) == LET FW(i) == W(i)
                    FX(i) == W(i) * X(i)
                IN  Frac(SumRange(FX, a, b), SumRange(FW, a, b))
MeanB(k) == MeanOf(blocks[k][1], blocks[k][2])

\* sign of the rank correlation of bin number and value (twice the average ranks)
N == Len(bins)
Rank2(i) == 2 * Cardinality({j \in 1..N : X(j) < X(i)}) + Cardinality({j \in 1..N : X(j) = X(i)}) + 1
RankCov == LET F(i) == (2 * i - N - 1) * (Rank2(i) - N - 1) IN SumRange(F, 1, N)
Up == dir = "up" \/ (dir = "auto" /\ RankCov >= 0)

Init == bins = <<>> /\ blocks = <<>> /\ pc = "collect" /\ dir \in (IF Random THEN {RandomElement({"up", "down", "auto"})} ELSE {"up", "down", "auto"})
AddBin ==
  /\ pc = "collect" /\ N < MaxBins
  /\ \E x \in (IF Random THEN {RandomElement(Values)} ELSE Values), w \in (IF Random THEN {RandomElement(Weights)} ELSE Weights) :
       bins' = Append(bins, <<x, w>>)
  /\ blocks' = Append(blocks, <<N + 1, N + 1>>)
  /\ UNCHANGED <<dir, pc>>
Start == pc = "collect" /\ N >= MinBins /\ pc' = "pool" /\ UNCHANGED <<bins, dir, blocks>>

Violates(k) == IF Up THEN Less(MeanB(k + 1), MeanB(k)) ELSE Less(MeanB(k), MeanB(k + 1))
Violations == {k \in 1..(Len(blocks) - 1) : Violates(k)}
Pool ==
  /\ pc = "pool"
  /\ \E k \in (IF Random /\ Violations # {} THEN {RandomElement(Violations)} ELSE Violations) :
       blocks' = SubSeq(blocks, 1, k - 1) \o <<<<blocks[k][1], blocks[k + 1][2]>>>> \o SubSeq(blocks, k + 2, Len(blocks))
  /\ UNCHANGED <<bins, dir, pc>>
Finish == pc = "pool" /\ Violations = {} /\ pc' = "done" /\ UNCHANGED <<bins, dir, blocks>>
Next == AddBin \/ Start \/ Pool \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Pool \/ Finish)

-----------------------------------------------------------------------------
BlockOf(i) == CHOOSE k \in DOMAIN blocks : blocks[k][1] <= i /\ i <= blocks[k][2]
Fit == [i \in 1..N |-> MeanB(BlockOf(i))]

Monotone == pc = "done" => \A i \in 1..(N - 1) : IF Up THEN Leq(Fit[i], Fit[i + 1]) ELSE Leq(Fit[i + 1], Fit[i])
\* optimality: inside a block no split point would let the parts drift apart
\* in the allowed direction, and residuals of each block cancel
Optimal == pc = "done" => \A k \in DOMAIN blocks :
  \A s \in blocks[k][1]..(blocks[k][2] - 1) :
    IF Up THEN Leq(MeanOf(s + 1, blocks[k][2]), MeanOf(blocks[k][1], s))
    ELSE Leq(MeanOf(blocks[k][1], s), MeanOf(s + 1, blocks[k][2]))
\* the max-min formula, which does not refer to the pooling at all
MaxMin(i) == S!Monotone(bins, Up, i)
Unique == pc = "done" => \A i \in 1..N : Fit[i] = MaxMin(i)
AlreadyMonotone == pc = "done" /\ Len(blocks) = N => \A i \in 1..N : Fit[i] = Q(X(i))
InHull == pc = "done" => \A i \in 1..N : \E j, k \in 1..N : Between(Fit[i], Q(X(j)), Q(X(k)))
Terminates == <>(pc \in {"collect", "done"})

Emit == pc = "done" => PrintT("@" \o ToJson([bins |-> bins, dir |-> dir, fit |-> Fit, cov |-> RankCov]))
=============================================================================
