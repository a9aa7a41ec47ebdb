----------------------------- MODULE Estimation -----------------------------
(* Sufficient statistics of one estimation step.  Rows arrive one by one and *)
(* are entered into the accumulators of their bin, kept apart by the value   *)
(* of the current prediction.  Afterwards target may be moved from a row of  *)
(* one bin to a row of the same weight in another bin, which leaves the      *)
(* weighted mean of the target and hence every prediction as they were.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NBins,               \* bins 0..NBins-1
          Bins,                \* bin numbers rows may have, Missing included
          Targets, Weights, Preds,
          MinRows, MaxRows, Moves, Step, Random

Missing == -1
VARIABLES rows, acc, pc, before
vars == <<rows, acc, pc, before>>

AllBins == {Missing} \cup 0..(NBins - 1)
Zero == [n |-> 0, w |-> 0, wy |-> 0, wyy |-> 0, ww |-> 0, wwy |-> 0, wwyy |-> 0]
Enter(a, r, s) == [n |-> a.n + s, w |-> a.w + s * r.w, wy |-> a.wy + s * r.w * r.y, wyy |-> a.wyy + s * r.w * r.y * r.y,
                   ww |-> a.ww + s * r.w * r.w, wwy |-> a.wwy + s * r.w * r.w * r.y, wwyy |-> a.wwyy + s * r.w * r.w * r.y * r.y]
Into(A, r, s) == [A EXCEPT ![r.bin] = [@ EXCEPT ![r.p] = Enter(@, r, s)]]

Fields == [bin : Bins, y : Targets, w : Weights, p : Preds]
\* mentions the state: TLC evaluates constant expressions once only
Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
RandomRow == [bin |-> Draw(Bins), y |-> Draw(Targets), w |-> Draw(Weights), p |-> Draw(Preds)]

Init ==
  /\ rows = <<>> /\ pc = "collect" /\ before = <<>>
  /\ acc = [b \in AllBins |-> [p \in Preds |-> Zero]]
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE Fields) : rows' = Append(rows, r) /\ acc' = Into(acc, r, 1)
  /\ UNCHANGED <<pc, before>>
Weighted == \E i \in DOMAIN rows : rows[i].w > 0
Finish == pc = "collect" /\ Len(rows) >= MinRows /\ Weighted /\ pc' = "done" /\ UNCHANGED <<rows, acc, before>>

Pairs == {<<i, j>> \in (DOMAIN rows) \X (DOMAIN rows) :
            /\ rows[i].bin # rows[j].bin /\ rows[i].w = rows[j].w /\ rows[i].w > 0
            /\ \E y \in Targets : y >= rows[i].y + Step      \* stays inside the domain
            /\ \E y \in Targets : y <= rows[j].y - Step}
Move ==
  /\ Moves /\ pc = "done" /\ before = <<>> /\ Pairs # {}
  /\ \E q \in (IF Random THEN {RandomElement(Pairs)} ELSE Pairs) :
       LET up == [rows[q[1]] EXCEPT !.y = @ + Step]
           down == [rows[q[2]] EXCEPT !.y = @ - Step]
       IN  /\ rows' = [rows EXCEPT ![q[1]] = up, ![q[2]] = down]
           /\ acc' = Into(Into(Into(Into(acc, rows[q[1]], -1), rows[q[2]], -1), up, 1), down, 1)
           /\ before' = <<[rows |-> rows, raised |-> rows[q[1]].bin, lowered |-> rows[q[2]].bin]>>
  /\ pc' = "moved"
Next == AddRow \/ Finish \/ Move
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE SumOver(_, _)
SumOver(F(_), I) == IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : TRUE IN F(i) + SumOver(F, I \ {i})
In(b, p) == {i \in DOMAIN rows : rows[i].bin = b /\ rows[i].p = p}
\* the accumulators hold the sums over the bag of rows of the bin, in whatever order they came
BagSums == \A b \in AllBins, p \in Preds :
  LET a == acc[b][p]
      W(i) == rows[i].w
      WY(i) == rows[i].w * rows[i].y
      WYY(i) == rows[i].w * rows[i].y * rows[i].y
      WW(i) == rows[i].w * rows[i].w
      WWY(i) == rows[i].w * rows[i].w * rows[i].y
      WWYY(i) == rows[i].w * rows[i].w * rows[i].y * rows[i].y
      I == In(b, p)
  IN  /\ a.n = Cardinality(I)
      /\ a.w = SumOver(W, I) /\ a.wy = SumOver(WY, I) /\ a.wyy = SumOver(WYY, I)
      /\ a.ww = SumOver(WW, I) /\ a.wwy = SumOver(WWY, I) /\ a.wwyy = SumOver(WWYY, I)
\* weighted residuals about any value stay non-negative, so variances are
Variances == \A b \in AllBins, p \in Preds : acc[b][p].w * acc[b][p].wyy >= acc[b][p].wy * acc[b][p].wy
\* moving target keeps the total, raises one bin and lowers another, and leaves the others alone
TotalY(rs) == LET WY(i) == rs[i].w * rs[i].y IN SumOver(WY, DOMAIN rs)
Total(A, b) == LET S(p) == A[b][p].wy IN SumOver(S, Preds)
MoveKeeps == pc = "moved" =>
  /\ TotalY(rows) = TotalY(before[1].rows)
  /\ \A i \in DOMAIN rows : rows[i] # before[1].rows[i] => rows[i].bin \in {before[1].raised, before[1].lowered}
\* a row touches the accumulators of its own bin and prediction only
Local == [][pc = "collect" /\ rows' # rows => LET r == rows'[Len(rows')] IN
              \A b \in AllBins, p \in Preds : acc'[b][p] # acc[b][p] => b = r.bin /\ p = r.p]_vars

\* a shift of one bin's own residual: the closed forms of the code use these only
Stats == {[bin |-> b, p |-> p, s |-> acc[b][p]] : <<b, p>> \in {x \in AllBins \X Preds : acc[x[1]][x[2]].n > 0}}
Emit == pc \in {"done", "moved"} =>
  PrintT("@" \o ToJson([rows |-> rows, stats |-> Stats, before |-> before]))
=============================================================================
