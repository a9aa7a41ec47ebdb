----------------------------- MODULE Influence ------------------------------
(* A prediction on the link scale as an account book: contributions of feature *)
(* groups are entered and taken out again, each under the category its group   *)
(* is assigned to.  Groups of the external kind go to the exponent instead and *)
(* need no category.  A contribution is symbolic: the state counts how often   *)
(* the contribution of each group is contained in each column.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NG,          \* number of feature groups
          NC,          \* number of categories
          Ops,         \* numbers of entries of a finished book
          WithCats,    \* set: TRUE with categories, FALSE without
          Externals,   \* set of sets of external groups
          OnlyOnce     \* TRUE: every group entered once, in order (a prediction)

Groups == 1..NG
VARIABLES use, cat, ext, len, hist, factors, exponents, column
vars == <<use, cat, ext, len, hist, factors, exponents, column>>

Nothing == [g \in Groups |-> 0]

(* category 0: the group is not listed *)
Init == /\ use \in WithCats
        /\ cat \in (IF use THEN [Groups -> 0..NC] ELSE {Nothing})
        /\ ext \in Externals
        /\ len \in Ops
        /\ hist = <<>>
        /\ factors = Nothing /\ exponents = Nothing
        /\ column = [c \in 1..NC |-> <<>>]        \* <<>>: no such column yet

Sign(op) == IF op = "include" THEN 1 ELSE -1
Refused(g) == use /\ g \notin ext /\ cat[g] = 0

Enter(op, g) ==
    /\ Len(hist) < len
    /\ OnlyOnce => op = "include" /\ g = Len(hist) + 1
    /\ hist' = Append(hist, <<op, g, Refused(g)>>)
    /\ UNCHANGED <<use, cat, ext, len>>
    /\ IF Refused(g) THEN UNCHANGED <<factors, exponents, column>>
       ELSE IF g \in ext
            THEN /\ exponents' = [exponents EXCEPT ![g] = @ + Sign(op)]
                 /\ UNCHANGED <<factors, column>>
            ELSE /\ factors' = [factors EXCEPT ![g] = @ + Sign(op)]
                 /\ UNCHANGED exponents
                 /\ column' = (IF ~use THEN column
                               ELSE LET c == cat[g]
                                        old == (IF column[c] = <<>> THEN Nothing ELSE column[c])
                                    IN [column EXCEPT ![c] = [old EXCEPT ![g] = @ + Sign(op)]])

Next == \E op \in {"include", "remove"}, g \in Groups : Enter(op, g)

(* ------------------------------ invariants ------------------------------- *)
RECURSIVE Total(_, _)
Total(g, c) == IF c = 0 THEN 0 ELSE (IF column[c] = <<>> THEN 0 ELSE column[c][g]) + Total(g, c - 1)
(* the categories share out the prediction: nothing is lost, nothing counted twice *)
Shared == use => \A g \in Groups : Total(g, NC) = factors[g]
OwnColumn == \A g \in Groups, c \in 1..NC : (column[c] # <<>> /\ column[c][g] # 0) => cat[g] = c
ExternalApart == \A g \in Groups : (g \in ext => factors[g] = 0) /\ (g \notin ext => exponents[g] = 0)
(* what was entered and taken out as often leaves no trace *)
Balance(g) == Cardinality({i \in DOMAIN hist : hist[i] = <<"include", g, FALSE>>})
              - Cardinality({i \in DOMAIN hist : hist[i] = <<"remove", g, FALSE>>})
Undo == \A g \in Groups : factors[g] + exponents[g] = Balance(g)
Columns == \A c \in 1..NC : (column[c] # <<>>) <=>
             (use /\ \E i \in DOMAIN hist : LET g == hist[i][2] IN g \notin ext /\ cat[g] = c)

Emit == Len(hist) = len => PrintT("@" \o ToJson([use |-> use, cat |-> cat, ext |-> ext, hist |-> hist,
           factors |-> factors, exponents |-> exponents, column |-> column]))
=============================================================================
