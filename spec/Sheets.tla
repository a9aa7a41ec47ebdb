------------------------------- MODULE Sheets -------------------------------
(* A sheet of factor plots of a trained estimator.  The training table is    *)
(* filled row by row; the sheet is filled panel by panel with the feature    *)
(* groups asked for, all of them unless some are named, and tells for groups *)
(* of one column how many rows fell into each bin, missing values last.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups,      \* sequences of columns (1, 2)
          Codes,       \* bin numbers, -1 means missing
          MinRows, MaxRows

VARIABLES groups, rows, asked, panels, pc
vars == <<groups, rows, asked, panels, pc>>

Orders == {s \in UNION {[1..n -> Groups] : n \in 1..3} : Cardinality({s[i] : i \in DOMAIN s}) = Len(s)}
Init == groups \in Orders /\ rows = <<>> /\ asked = <<>> /\ panels = <<>> /\ pc = "rows"
Add == pc = "rows" /\ Len(rows) < MaxRows /\ (\E x \in Codes \X Codes : rows' = Append(rows, x)) /\ UNCHANGED <<groups, asked, panels, pc>>
InTable == {groups[i] : i \in DOMAIN groups}
Bins(c) == 1 + CHOOSE m \in {rows[i][c] : i \in DOMAIN rows} : \A i \in DOMAIN rows : rows[i][c] <= m
Ask == /\ pc = "rows" /\ Len(rows) >= MinRows /\ Bins(1) > 0 /\ Bins(2) > 0
       /\ \E s \in {<<>>} \cup {o \in Orders : \A i \in DOMAIN o : o[i] \in InTable} : asked' = s
       /\ pc' = "draw" /\ UNCHANGED <<groups, rows, panels>>
Wanted == IF asked = <<>> THEN groups ELSE asked
Count(c, b) == Cardinality({i \in DOMAIN rows : rows[i][c] = b})
Occupancy(c) == [b \in 1..(Bins(c) + 1) |-> Count(c, IF b <= Bins(c) THEN b - 1 ELSE -1)]
Panel(g) == [group |-> g, rows |-> IF Len(g) = 1 THEN Occupancy(g[1]) ELSE <<>>]
Draw == pc = "draw" /\ Len(panels) < Len(Wanted) /\ panels' = Append(panels, Panel(Wanted[Len(panels) + 1])) /\ UNCHANGED <<groups, rows, asked, pc>>
Next == Add \/ Ask \/ Draw
Spec == Init /\ [][Next]_vars

Done == pc = "draw" /\ Len(panels) = Len(Wanted)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
EveryRowCounted == \A k \in DOMAIN panels : Len(panels[k].group) = 1 => Sum(panels[k].rows, Len(panels[k].rows)) = Len(rows)
OncePerGroup == Cardinality({panels[k].group : k \in DOMAIN panels}) = Len(panels)
AllUnlessNamed == (Done /\ asked = <<>>) => {panels[k].group : k \in DOMAIN panels} = InTable
Emit == Done => PrintT("@" \o ToJson([groups |-> groups, rows |-> rows, asked |-> asked, panels |-> panels]))
=============================================================================
