------------------------------ MODULE BinStats ------------------------------
(* What factor plots show per bin of a feature group: weight, weighted sum   *)
(* and weighted quantile of the targets of the rows in the bin, and which    *)
(* rows these are.  Rows have two columns of bin numbers, -1 is a missing    *)
(* value.  Bins of a pair are numbered lexicographically; the last bin takes *)
(* all rows with a missing value.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Top1, Top2, Targets, Weights, Levels, Scale, MinRows, MaxRows

VARIABLES rows, level, pc
vars == <<rows, level, pc>>

Qn == INSTANCE Quantile WITH Bins <- {1}, Random <- FALSE

AllRows == [c1 : -1..Top1, c2 : -1..Top2, y : Targets, w : Weights]
Init == rows = <<>> /\ level \in Levels /\ pc = "collect"
AddRow == pc = "collect" /\ Len(rows) < MaxRows /\ (\E r \in AllRows : rows' = Append(rows, r)) /\ UNCHANGED <<level, pc>>
\* some row of every group is complete and has weight
Finish ==
  /\ pc = "collect" /\ Len(rows) >= MinRows
  /\ \E i \in DOMAIN rows : rows[i].c1 >= 0 /\ rows[i].c2 >= 0 /\ rows[i].w > 0
  /\ pc' = "done" /\ UNCHANGED <<rows, level>>
Next == AddRow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllI == DOMAIN rows
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Whole2 == {i \in AllI : rows[i].c1 >= 0 /\ rows[i].c2 >= 0}
Whole(g) == IF g = "c1" THEN {i \in AllI : rows[i].c1 >= 0} ELSE IF g = "c2" THEN {i \in AllI : rows[i].c2 >= 0} ELSE Whole2
N1(g) == 1 + MaxOf({rows[i].c1 : i \in Whole(g)})
N2(g) == 1 + MaxOf({rows[i].c2 : i \in Whole(g)})
Groups == {"c1", "c2", "c1 c2"}
Regular(g) == IF g = "c1" THEN N1(g) ELSE IF g = "c2" THEN N2(g) ELSE N1(g) * N2(g)
Bin(g, i) ==
  IF i \notin Whole(g) THEN Regular(g)
  ELSE IF g = "c1" THEN rows[i].c1 ELSE IF g = "c2" THEN rows[i].c2 ELSE rows[i].c1 * N2(g) + rows[i].c2
In(g, b) == {i \in AllI : Bin(g, i) = b}
W(I) == LET f(i) == rows[i].w IN Qn!SumOver(f, I)
YW(I) == LET f(i) == rows[i].w * rows[i].y IN Qn!SumOver(f, I)
Finite(g) == AllI \ In(g, Regular(g))

Partition == pc = "done" => \A g \in Groups : \A i \in AllI : Bin(g, i) \in 0..Regular(g)
Lexicographic == pc = "done" => \A i, j \in Whole2 : Bin("c1 c2", i) = Bin("c1 c2", j) <=> (rows[i].c1 = rows[j].c1 /\ rows[i].c2 = rows[j].c2)
LastOccupied == pc = "done" => In("c1", Regular("c1") - 1) # {} /\ In("c2", Regular("c2") - 1) # {}
Shares == pc = "done" => \A g \in Groups : W(Finite(g)) + W(In(g, Regular(g))) = W(AllI)

Stat(g, b) == LET I == In(g, b) IN
  [b |-> b, w |-> W(I), yw |-> YW(I), rows |-> {i - 1 : i \in I}, quantile |-> IF W(I) > 0 THEN Qn!Level(I, level) ELSE <<0, 1>>]
Emit == pc = "done" =>
  PrintT("@" \o ToJson([rows |-> rows, level |-> level, scale |-> Scale, base |-> Qn!Level(AllI, level),
    groups |-> {[group |-> g, n |-> Regular(g) + 1, w |-> W(Finite(g)), yw |-> YW(Finite(g)),
                 bins |-> [b \in 1..Regular(g) + 1 |-> Stat(g, b - 1)]] : g \in Groups}]))
=============================================================================
