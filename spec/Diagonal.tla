------------------------------ MODULE Diagonal ------------------------------
(* Rows with a prediction, a target and a weight, grouped by the prediction  *)
(* into N ranges of equal width between the smallest and the largest.        *)
(* Statistics per range: weight, weighted mean and weighted quantile of the  *)
(* targets, centre of the range.  Predictions are in units of half a range   *)
(* when Span = 2 N.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS N, Span, Preds, Targets, Weights, Levels, Scale, MinRows, MaxRows

VARIABLES rows, level, pc
vars == <<rows, level, pc>>

Qn == INSTANCE Quantile WITH Bins <- {1}, Random <- FALSE

\* the first two rows mark the ends (unless all predictions are equal)
Init ==
  /\ level \in Levels /\ pc = "collect"
  /\ \E a, b \in Targets, v, w \in Weights :
       rows \in {<<[p |-> 0, y |-> a, w |-> v], [p |-> Span, y |-> b, w |-> w]>>, <<[p |-> Span, y |-> b, w |-> w], [p |-> Span, y |-> a, w |-> v]>>}
Ends == rows[1].p # rows[2].p
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E p \in (IF Ends THEN Preds ELSE {Span}), y \in Targets, w \in Weights : rows' = Append(rows, [p |-> p, y |-> y, w |-> w])
  /\ UNCHANGED <<level, pc>>
Finish == pc = "collect" /\ Len(rows) >= MinRows /\ pc' = "done" /\ UNCHANGED <<rows, level>>
Next == AddRow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllI == DOMAIN rows
Range(i) == IF ~Ends THEN N ELSE IF rows[i].p = Span THEN N ELSE 1 + (rows[i].p * N) \div Span
In(r) == {i \in AllI : Range(i) = r}
Used == {r \in 1..N : In(r) # {}}
W(I) == LET f(i) == rows[i].w IN Qn!SumOver(f, I)
YW(I) == LET f(i) == rows[i].w * rows[i].y IN Qn!SumOver(f, I)
Held == {r \in Used : W(In(r)) > 0}
\* twice the centre of a range in units of Span / N, seen from the smallest prediction
Centre2(r) == 2 * r - 1

\* every row is counted once
Partition == pc = "done" => Qn!SumOver(W, {In(r) : r \in Used}) = W(AllI) /\ \A i \in AllI : Range(i) \in 1..N
\* a row lies within its range
Inside == (pc = "done" /\ Ends) => \A i \in AllI : (Range(i) - 1) * Span <= rows[i].p * N /\ rows[i].p * N <= Range(i) * Span
\* larger predictions lie in no lower range
Monotone == pc = "done" => \A i, j \in AllI : rows[i].p <= rows[j].p => Range(i) <= Range(j)
MeanBetween == pc = "done" => \A r \in Held : \E i, j \in In(r) : rows[i].y * W(In(r)) <= YW(In(r)) /\ YW(In(r)) <= rows[j].y * W(In(r))

Emit == pc = "done" =>
  PrintT("@" \o ToJson([rows |-> rows, ends |-> Ends, level |-> level, scale |-> Scale, span |-> Span, n |-> N,
    ranges |-> {[r |-> r, w |-> W(In(r)), yw |-> YW(In(r)), centre2 |-> Centre2(r), count |-> Cardinality(In(r)),
                 quantile |-> IF r \in Held THEN Qn!Plain(In(r), level) ELSE 0] : r \in Used}]))
=============================================================================
