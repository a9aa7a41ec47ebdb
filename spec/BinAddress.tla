----------------------------- MODULE BinAddress -----------------------------
(* Parameters of feature groups.  Training rows of bin numbers arrive one by *)
(* one; each group of columns keeps one parameter per combination of bins    *)
(* and one for rows in which any of its columns is missing.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NCols, Values,       \* bin numbers, Missing included
          MinRows, MaxRows,
          Groups,              \* set of sequences of column numbers
          Random

Missing == -1
VARIABLES rows, pc
vars == <<rows, pc>>

Tuple(g, r) == [i \in DOMAIN g |-> r[g[i]]]
IsMissing(t) == \E i \in DOMAIN t : t[i] = Missing
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
\* number of bins of each column of the group, as seen in rows without missing value
Complete(g) == {i \in DOMAIN rows : ~IsMissing(Tuple(g, rows[i]))}
NB(g) == LET c == TLCEval(Complete(g)) IN TLCEval([i \in DOMAIN g |-> IF c = {} THEN 0 ELSE 1 + MaxOf({rows[k][g[i]] : k \in c})])
InRange(t, nb) == \A i \in DOMAIN t : t[i] >= 0 /\ t[i] < nb[i]

\* parameters are numbered with the last column running fastest, missing comes last
RECURSIVE LexFrom(_, _, _)
LexFrom(t, nb, k) == IF k = 0 THEN 0 ELSE LexFrom(t, nb, k - 1) * nb[k] + t[k]
Lex(t, nb) == LexFrom(t, nb, Len(t))
RECURSIVE ProdTo(_, _)
ProdTo(nb, k) == IF k = 0 THEN 1 ELSE nb[k] * ProdTo(nb, k - 1)
Slot(t, nb) == IF InRange(t, nb) THEN Lex(t, nb) ELSE ProdTo(nb, Len(nb))

Sharing(g, t) == IF IsMissing(t) THEN {i \in DOMAIN rows : IsMissing(Tuple(g, rows[i]))}
                 ELSE {i \in DOMAIN rows : Tuple(g, rows[i]) = t}
Kind(g, t) ==
  IF IsMissing(t) THEN "missing"
  ELSE IF ~InRange(t, NB(g)) THEN "none"
  ELSE IF Sharing(g, t) = {} THEN "unseen"
  ELSE "rows"

\* mentions the state: TLC evaluates constant expressions once only
RandomRow == TLCEval([c \in 1..NCols |-> RandomElement(IF Len(rows) >= 0 THEN Values ELSE {})])

Init == rows = <<>> /\ pc = "collect"
AddRow ==
  /\ pc = "collect" /\ Len(rows) < MaxRows
  /\ \E r \in (IF Random THEN {RandomRow} ELSE [1..NCols -> Values]) : rows' = Append(rows, r)
  /\ UNCHANGED pc
Train == pc = "collect" /\ Len(rows) >= MinRows /\ pc' = "done" /\ UNCHANGED rows
Next == AddRow \/ Train
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* rows share a parameter exactly when they agree or are both incomplete
SameSlot == pc = "done" => \A g \in Groups : \A i, j \in DOMAIN rows :
  LET t == Tuple(g, rows[i])
      u == Tuple(g, rows[j])
  IN  Slot(t, NB(g)) = Slot(u, NB(g)) <=> (t = u \/ (IsMissing(t) /\ IsMissing(u)))
Grid(nb) == {t \in [DOMAIN nb -> Nat \cap 0..9] : InRange(t, nb)}
Numbering == pc = "done" => \A g \in Groups :
  LET nb == NB(g) IN {Lex(t, nb) : t \in Grid(nb)} = 0..(ProdTo(nb, Len(nb)) - 1)
Partition == pc = "done" => \A g \in Groups :
  \A i \in DOMAIN rows : i \in Sharing(g, Tuple(g, rows[i]))

Probes(g) == {t \in [DOMAIN g -> -1..9] : \A i \in DOMAIN g : t[i] <= NB(g)[i] + 1}
Emit == pc = "done" =>
  PrintT("@" \o ToJson([rows |-> rows,
    groups |-> {[cols |-> g, nb |-> NB(g), slots |-> [i \in DOMAIN rows |-> Slot(Tuple(g, rows[i]), NB(g))],
                 probes |-> {<<t, Kind(g, t), IF Kind(g, t) \in {"rows", "missing"} THEN Sharing(g, t) ELSE {}, Slot(t, NB(g))>> : t \in Probes(g)}] : g \in Groups}]))
=============================================================================
