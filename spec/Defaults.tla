------------------------------ MODULE Defaults ------------------------------
(* Which columns of a table become features when no feature groups are given: *)
(* every column, in the order of the table, that holds neither the weights    *)
(* nor the prior predictions.  Columns are numbered from zero.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCols

VARIABLES n, roles, groups, pc
vars == <<n, roles, groups, pc>>
Roles == {"feature", "weight", "prior"}

Init == n \in 1..MaxCols /\ roles = <<>> /\ groups = <<>> /\ pc = "columns"
Taken(r) == \E i \in DOMAIN roles : roles[i] = r
Column == /\ pc = "columns" /\ Len(roles) < n
          /\ \E r \in Roles : (r # "feature" => ~Taken(r)) /\ roles' = Append(roles, r)
          /\ UNCHANGED <<n, groups, pc>>
\* groups are collected from the left
Collect == /\ pc = "columns" /\ Len(roles) = n /\ Taken("feature")
           /\ pc' = "done"
           /\ groups' = SelectSeq([i \in 1..n |-> i - 1], LAMBDA c : roles[c + 1] = "feature")
           /\ UNCHANGED <<n, roles>>
Next == Column \/ Collect
Spec == Init /\ [][Next]_vars

At(r) == IF Taken(r) THEN (CHOOSE i \in DOMAIN roles : roles[i] = r) - 1 ELSE -1

(* ------------------------------ invariants ------------------------------- *)
Complete == pc = "done" => /\ {groups[i] : i \in DOMAIN groups} = (0..(n - 1)) \ {At("weight"), At("prior")}
                           /\ Len(groups) = Cardinality({groups[i] : i \in DOMAIN groups})
InOrder == \A i, j \in DOMAIN groups : i < j => groups[i] < groups[j]
Emit == pc = "done" => PrintT("@" \o ToJson([n |-> n, weight |-> At("weight"), prior |-> At("prior"), groups |-> groups]))
=============================================================================
