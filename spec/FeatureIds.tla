----------------------------- MODULE FeatureIds -----------------------------
(* The list of features of an estimator, and the ways to ask it for one.  A    *)
(* feature is identified by the tuple of its columns and its kind; a single    *)
(* column may be named without the tuple.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cols,        \* number of columns
          Lens,        \* numbers of features
          MaxDim       \* columns per feature

RECURSIVE Tuples(_)
Tuples(k) == IF k = 0 THEN {<<>>}
             ELSE {Append(t, c) : t \in Tuples(k - 1), c \in 1..Cols}
Distinct(t) == \A i, j \in DOMAIN t : i # j => t[i] # t[j]
GroupsOf == {t \in UNION {Tuples(k) : k \in 1..MaxDim} : Distinct(t)}
Kinds == {"standard", "external"}
Ids == GroupsOf \X Kinds

VARIABLES len, ids, weight, prior, price, exponent
vars == <<len, ids, weight, prior, price, exponent>>

Init == /\ len \in Lens /\ ids = <<>>
        /\ weight \in BOOLEAN /\ prior \in BOOLEAN /\ price \in BOOLEAN /\ exponent \in BOOLEAN
        /\ exponent => price

(* standard features first, as the estimators of prices list them; the same    *)
(* feature is not listed twice; external features need a price model           *)
Add == /\ Len(ids) < len
       /\ \E id \in Ids :
            /\ \A i \in DOMAIN ids : ids[i] # id
            /\ (id[2] = "external" => price)
            /\ (ids = <<>> => id[2] = "standard")
            /\ (ids # <<>> /\ ids[Len(ids)][2] = "external" => id[2] = "external")
            /\ ids' = Append(ids, id)
       /\ UNCHANGED <<len, weight, prior, price, exponent>>
Next == Add

(* a question: the columns, whether written as a bare name, and the kind *)
Questions == Ids
Find(q) == LET at == {i \in DOMAIN ids : ids[i] = q} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
Needed == UNION {{ids[i][1][k] : k \in DOMAIN ids[i][1]} : i \in DOMAIN ids}

(* ------------------------------ invariants ------------------------------- *)
Unique == \A q \in Questions : Cardinality({i \in DOMAIN ids : ids[i] = q}) <= 1
Found == \A i \in DOMAIN ids : Find(ids[i]) = i
OrderMatters == \A q \in Questions : \A p \in Questions :
                   (Find(p) # 0 /\ Find(p) = Find(q)) => p = q
Emit == Len(ids) = len => PrintT("@" \o ToJson([ids |-> ids, weight |-> weight, prior |-> prior, price |-> price,
           exponent |-> exponent, needed |-> Needed, found |-> {<<q, Find(q)>> : q \in Questions}]))
=============================================================================
