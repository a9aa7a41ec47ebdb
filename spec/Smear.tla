------------------------------- MODULE Smear -------------------------------
(* Spreading the values of a distribution function of a discrete variable.   *)
(* Values 0..K arrive with masses (of a total); a value is then spread over  *)
(* the step the distribution function makes at it.                           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Masses, MaxLen, Draws

VARIABLES mass, y, pc
vars == <<mass, y, pc>>

RECURSIVE Cum(_)
Cum(k) == IF k < 0 THEN 0 ELSE (IF k + 1 > Len(mass) THEN 0 ELSE mass[k + 1]) + Cum(k - 1)
Total == Cum(Len(mass) - 1)
Low(v) == Cum(v - 1)
High(v) == Cum(v)

Init == mass = <<>> /\ y = <<>> /\ pc = "masses"
AddMass == pc = "masses" /\ Len(mass) < MaxLen /\ (\E m \in Masses : mass' = Append(mass, m)) /\ UNCHANGED <<y, pc>>
Begin == pc = "masses" /\ Len(mass) > 0 /\ Total > 0 /\ pc' = "draw" /\ UNCHANGED <<mass, y>>
Draw == pc = "draw" /\ Len(y) < Draws /\ (\E v \in 0..Len(mass) : y' = Append(y, v)) /\ UNCHANGED <<mass, pc>>
Next == AddMass \/ Begin \/ Draw
Spec == Init /\ [][Next]_vars

\* the steps of all values tile the whole range without overlap
Tiles == pc = "draw" => Low(0) = 0 /\ High(Len(mass)) = Total /\ \A v \in 1..Len(mass) : Low(v) = High(v - 1)
Emit == pc = "draw" /\ Len(y) = Draws =>
  PrintT("@" \o ToJson([mass |-> mass, y |-> y, total |-> Total, low |-> [i \in DOMAIN y |-> Low(y[i])], high |-> [i \in DOMAIN y |-> High(y[i])]]))
=============================================================================
