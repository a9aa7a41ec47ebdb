------------------------------ MODULE QpdOrder ------------------------------
(* Triplets are handed over one by one; the distributions through them are   *)
(* refused as a whole as soon as one triplet is out of order.  Triplets with *)
(* equal values are neither promised nor refused.                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values, MaxTriplets

VARIABLES triplets, verdict, pc
vars == <<triplets, verdict, pc>>

Falls(x) == x[1] > x[2] \/ x[3] < x[2]
Rises(x) == x[1] < x[2] /\ x[2] < x[3]
Init == triplets = <<>> /\ verdict = "accepted" /\ pc = "hand"
Hand == /\ pc = "hand" /\ Len(triplets) < MaxTriplets
        /\ \E x \in Values \X Values \X Values :
              /\ triplets' = Append(triplets, x)
              /\ verdict' = (IF verdict = "refused" \/ Falls(x) THEN "refused" ELSE IF Rises(x) THEN verdict ELSE "open")
        /\ UNCHANGED pc
Finish == pc = "hand" /\ triplets # <<>> /\ pc' = "done" /\ UNCHANGED <<triplets, verdict>>
Next == Hand \/ Finish
Spec == Init /\ [][Next]_vars

RefusedIffOneFalls == (verdict = "refused") <=> \E k \in DOMAIN triplets : Falls(triplets[k])
AcceptedIffAllRise == (verdict = "accepted") <=> \A k \in DOMAIN triplets : Rises(triplets[k])
Emit == (pc = "done" /\ verdict # "open") => PrintT("@" \o ToJson([triplets |-> triplets, verdict |-> verdict]))
=============================================================================
