------------------------------- MODULE Weights -------------------------------
(* Weighted tables and the rewritings that must not matter: splitting the    *)
(* weight of a row over copies, merging equal rows, moving rows, and adding  *)
(* or removing rows without weight whose bins are all held by rows with      *)
(* weight.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NCols, Values,       \* bin numbers per column, Missing included
          Targets, Weights,    \* positive weights
          MinRows, MaxRows, MaxSteps, Unit, Random
          \* Unit: end with every row of weight one

VARIABLES rows, orig, pc, steps, last
vars == <<rows, orig, pc, steps, last>>

Draw(S) == RandomElement(IF Len(rows) >= 0 THEN S ELSE {})
RandomRow == [x |-> TLCEval([c \in 1..NCols |-> Draw(Values)]), y |-> Draw(Targets), w |-> Draw(Weights)]
AllRows == [x : [1..NCols -> Values], y : Targets, w : Weights]

Init == rows = <<>> /\ orig = <<>> /\ pc = "collect" /\ steps = 0 /\ last = {}
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE AllRows) : rows' = Append(rows, r)
  /\ UNCHANGED <<orig, pc, steps, last>>
Start == pc = "collect" /\ Len(rows) >= MinRows /\ orig' = rows /\ pc' = "rewrite" /\ UNCHANGED <<rows, steps, last>>

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, r) == SubSeq(s, 1, i) \o <<r>> \o SubSeq(s, i + 1, Len(s))
Did(what) == pc = "rewrite" /\ steps' = steps + 1 /\ last' = last \cup {what} /\ UNCHANGED <<orig, pc>>
More == pc = "rewrite" /\ steps < MaxSteps

Splittable == {i \in DOMAIN rows : rows[i].w >= 2}
Split ==
  /\ More /\ Splittable # {}
  /\ \E i \in Pick(Splittable) : \E k \in Pick(1..(rows[i].w - 1)) : \E at \in Pick(0..Len(rows)) :
       rows' = Insert([rows EXCEPT ![i].w = @ - k], at, [rows[i] EXCEPT !.w = k])
  /\ Did("split")
Equal == {<<i, j>> \in (DOMAIN rows) \X (DOMAIN rows) : i < j /\ rows[i].x = rows[j].x /\ rows[i].y = rows[j].y}
Merge ==
  /\ More /\ Equal # {}
  /\ \E q \in Pick(Equal) : rows' = Without([rows EXCEPT ![q[1]].w = @ + rows[q[2]].w], q[2])
  /\ Did("merge")
Move ==
  /\ More /\ Len(rows) >= 2
  /\ \E i \in Pick(DOMAIN rows) : \E at \in Pick(0..(Len(rows) - 1)) : rows' = Insert(Without(rows, i), at, rows[i])
  /\ Did("move")
\* a row without weight among bins that other rows give weight to
AddZero ==
  /\ More
  /\ \E i \in Pick({i \in DOMAIN rows : rows[i].w > 0}) : \E y \in Pick(Targets) : \E at \in Pick(0..Len(rows)) :
       rows' = Insert(rows, at, [x |-> rows[i].x, y |-> y, w |-> 0])
  /\ Did("zero")
RECURSIVE Spread(_, _)
Spread(s, k) == IF k = 0 THEN <<>> ELSE Spread(s, k - 1) \o (IF s[k].w = 0 THEN <<>> ELSE [j \in 1..s[k].w |-> [s[k] EXCEPT !.w = 1]])
End ==
  /\ pc = "rewrite" /\ (steps >= MaxSteps \/ ~Random)
  /\ rows' = (IF Unit THEN Spread(rows, Len(rows)) ELSE rows)
  /\ pc' = "done" /\ UNCHANGED <<orig, steps, last>>
Next == AddRow \/ Start \/ Split \/ Merge \/ Move \/ AddZero \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Mass(_, _, _, _)
Mass(s, k, x, y) == IF k = 0 THEN 0 ELSE Mass(s, k - 1, x, y) + (IF s[k].x = x /\ s[k].y = y THEN s[k].w ELSE 0)
Kinds(s) == {<<s[i].x, s[i].y>> : i \in DOMAIN s}
\* every rewriting keeps the total weight of each kind of row
SameMass == pc \in {"rewrite", "done"} =>
  \A k \in Kinds(rows) \cup Kinds(orig) : Mass(rows, Len(rows), k[1], k[2]) = Mass(orig, Len(orig), k[1], k[2])
\* and no bin of any column or of all columns together loses or wins its weight
SameBins == pc \in {"rewrite", "done"} =>
  /\ {rows[i].x : i \in DOMAIN rows} = {orig[i].x : i \in DOMAIN orig}
  /\ \A i \in DOMAIN rows : \E j \in DOMAIN rows : rows[j].x = rows[i].x /\ rows[j].w > 0
Unitary == pc = "done" /\ Unit => \A i \in DOMAIN rows : rows[i].w = 1
Emit == pc = "done" => PrintT("@" \o ToJson([orig |-> orig, rows |-> rows, did |-> last]))
=============================================================================
