-------------------------------- MODULE Chain -------------------------------
(* The chain of quantile models.  Its three models are lower medians by      *)
(* group, so that each stage picks an order statistic: the median of the     *)
(* group, then the lower median of the targets below it, then of those       *)
(* above it.  The first model answers slightly more than the order statistic *)
(* such that rows at the median count as below it.  All transformations      *)
(* inside the chain are monotone and have to cancel.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups, Targets, Lower, Upper, MinRows, MaxRows, Random

VARIABLES rows, pc, med, low, high
vars == <<rows, pc, med, low, high>>

Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
Init == rows = <<>> /\ pc = "rows" /\ med = <<>> /\ low = <<>> /\ high = <<>>
AddRow ==
  /\ pc = "rows" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {[g |-> Draw(Groups), y |-> Draw(Targets)]} ELSE [g : Groups, y : Targets]) : rows' = Append(rows, r)
  /\ UNCHANGED <<pc, med, low, high>>

Of(g) == {i \in DOMAIN rows : rows[i].g = g}
Present == {g \in Groups : Of(g) # {}}
\* the smallest target that has at least half of the rows at or below it
LowerMedian(I) == CHOOSE y \in Targets :
                    /\ \E i \in I : rows[i].y = y
                    /\ 2 * Cardinality({i \in I : rows[i].y <= y}) >= Cardinality(I)
                    /\ 2 * Cardinality({i \in I : rows[i].y < y}) < Cardinality(I)
StageMedian ==
  /\ pc = "rows" /\ Len(rows) >= MinRows
  /\ med' = [g \in Present |-> LowerMedian(Of(g))]
  /\ pc' = "median" /\ UNCHANGED <<rows, low, high>>
Below(g) == {i \in Of(g) : rows[i].y <= med[g]}
Above(g) == {i \in Of(g) : rows[i].y > med[g]}
Usable == \A g \in Present : Above(g) # {} /\ LowerMedian(Below(g)) < med[g]
StageLow == pc = "median" /\ Usable /\ low' = [g \in Present |-> LowerMedian(Below(g))] /\ pc' = "low" /\ UNCHANGED <<rows, med, high>>
StageHigh == pc = "low" /\ high' = [g \in Present |-> LowerMedian(Above(g))] /\ pc' = "done" /\ UNCHANGED <<rows, med, low>>
Next == AddRow \/ StageMedian \/ StageLow \/ StageHigh
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InOrder == pc = "done" => \A g \in Present : Lower < low[g] /\ low[g] < med[g] /\ med[g] < high[g] /\ high[g] < Upper
(* about a quarter of the rows of a group is at or below the lower value *)
Quarter == pc = "done" => \A g \in Present : 4 * Cardinality({i \in Of(g) : rows[i].y <= low[g]}) >= Cardinality(Of(g))
Emit == pc = "done" => PrintT("@" \o ToJson([rows |-> rows, l |-> Lower, u |-> Upper,
                              out |-> {[g |-> g, low |-> low[g], med |-> med[g], high |-> high[g]] : g \in Present}]))
=============================================================================
