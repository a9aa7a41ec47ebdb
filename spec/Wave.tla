-------------------------------- MODULE Wave --------------------------------
(* A yearly wave over 4q + 1 bins, the last being the first of the next year.  *)
(* Quarter by quarter the wave takes the values b, a, -b, -a of its cosine and *)
(* sine parts.  Bins may be without samples.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Amps, Quarters, MaxEmpty, MaxTurns

VARIABLES a, b, q, empty, turns
vars == <<a, b, q, empty, turns>>

Init == /\ a \in Amps /\ b \in Amps /\ q \in Quarters /\ empty = {} /\ turns = <<>>

At(j) == LET r == j % 4 IN IF r = 0 THEN b ELSE IF r = 1 THEN a ELSE IF r = 2 THEN -b ELSE -a
Empty == /\ turns = <<>> /\ Cardinality(empty) < MaxEmpty
         /\ \E i \in 0..(4 * q) : /\ \A e \in empty : e < i
                                  /\ empty' = empty \cup {i}
         /\ UNCHANGED <<a, b, q, turns>>
Turn == /\ Len(turns) < MaxTurns
        /\ turns' = Append(turns, <<Len(turns), At(Len(turns))>>)
        /\ UNCHANGED <<a, b, q, empty>>
Next == Empty \/ Turn

Yearly == \A i \in 1..Len(turns) : i > 4 => turns[i][2] = turns[i - 4][2]
HalfYear == \A i \in 1..Len(turns) : i > 2 => turns[i][2] = -turns[i - 2][2]
Seen == 4 * q + 1 - Cardinality(empty)
Emit == Len(turns) = MaxTurns => PrintT("@" \o ToJson([a |-> a, b |-> b, q |-> q, empty |-> empty, seen |-> Seen, turns |-> turns]))
=============================================================================
