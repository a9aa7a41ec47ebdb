------------------------------- MODULE Neutral ------------------------------
(* Removal of what single columns explain from the table of a pair of        *)
(* columns.  The certainty of a cell is the product of a row and a column    *)
(* part, so that one correction of rows and columns is exact.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rational

CONSTANTS Shapes, Values, Parts
VARIABLES shape, rows, cols, vals, pc
vars == <<shape, rows, cols, vals, pc>>

I == 1..shape[1]
J == 1..shape[2]
Cell(i, j) == vals[(i - 1) * shape[2] + j]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
P == Sum(rows, Len(rows))
R == Sum(cols, Len(cols))
RowSum(i) == Sum([j \in J |-> cols[j] * Cell(i, j)], shape[2])
ColSum(j) == Sum([i \in I |-> rows[i] * Cell(i, j)], shape[1])
All == Sum([i \in I |-> rows[i] * RowSum(i)], shape[1])
\* times P * R
Res(i, j) == P * R * Cell(i, j) - P * RowSum(i) - R * ColSum(j) + All
Result == [k \in 1..(shape[1] * shape[2]) |-> Frac(Res(1 + ((k - 1) \div shape[2]), 1 + ((k - 1) % shape[2])), P * R)]

Init == pc = "pick" /\ shape \in Shapes /\ rows = <<>> /\ cols = <<>> /\ vals = <<>>
AddRow == pc = "pick" /\ Len(rows) < shape[1] /\ \E w \in Parts : rows' = Append(rows, w) /\ UNCHANGED <<shape, cols, vals, pc>>
AddCol == pc = "pick" /\ Len(rows) = shape[1] /\ Len(cols) < shape[2] /\ \E w \in Parts : cols' = Append(cols, w) /\ UNCHANGED <<shape, rows, vals, pc>>
AddCell == pc = "pick" /\ Len(cols) = shape[2] /\ Len(vals) < shape[1] * shape[2]
  /\ \E v \in Values : vals' = Append(vals, v) /\ UNCHANGED <<shape, rows, cols, pc>>
Fit == pc = "pick" /\ Len(vals) = shape[1] * shape[2] /\ pc' = "done" /\ UNCHANGED <<shape, rows, cols, vals>>
Next == AddRow \/ AddCol \/ AddCell \/ Fit

\* no net shift in either direction
NoRowShift == pc = "done" => \A i \in I : Sum([j \in J |-> cols[j] * Res(i, j)], shape[2]) = 0
NoColShift == pc = "done" => \A j \in J : Sum([i \in I |-> rows[i] * Res(i, j)], shape[1]) = 0
\* what distinguishes two cells from the others of their rows and columns is kept
Contrast == pc = "done" => \A a, b \in I, c, d \in J :
  Res(a, c) - Res(a, d) - Res(b, c) + Res(b, d) = P * R * (Cell(a, c) - Cell(a, d) - Cell(b, c) + Cell(b, d))
Emit == pc = "done" => PrintT("@" \o ToJson([shape |-> shape, rows |-> rows, cols |-> cols, vals |-> vals, res |-> Result]))
=============================================================================
