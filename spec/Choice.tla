------------------------------- MODULE Choice -------------------------------
(* Which smoother a feature group gets.  Properties are given to the columns *)
(* of a group one by one, in any order; the choice depends on the resulting  *)
(* sets only.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Flags,    \* names of flags that may be given
          MaxCols,  \* columns of a group
          MinFlags, MaxFlags, \* flags given in total
          Random

VARIABLES props,   \* per column the set of flags given
          scheme,  \* "mean", "group" or "none"
          expl,    \* explicit smoothers: subset of {"group", "last"}
          reg, norm,
          added, pc
vars == <<props, scheme, expl, reg, norm, added, pc>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

\* the bits a flag stands for
BitsOf(f) ==
  CASE f = "IS_MONOTONIC" -> {"continuous", "monotonic"}
    [] f = "IS_CONTINUOUS" -> {"continuous"}
    [] f = "MISSING_NOT_LEARNED" -> {"missing", "not_learned"}
    [] f = "HAS_MAGIC_INT_MISSING" -> {"missing", "magic"}
    [] f = "HAS_MISSING" -> {"missing"}
    [] OTHER -> {f}
Bits(fs) == UNION {BitsOf(f) : f \in fs}
Has(fs, f) == BitsOf(f) \subseteq Bits(fs)

Neutral == {"HAS_MISSING", "MISSING_NOT_LEARNED", "HAS_MAGIC_INT_MISSING", "USE_ORIGINAL", "CORR_TO_WIDTH"}
AllFlags == Neutral \cup {"IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED", "IS_MONOTONIC", "IS_LINEAR", "IS_SEASONAL", "INCREASING", "DECREASING"}
Names(fs) == {f \in AllFlags : Has(fs, f)}
Consistent(fs) ==
  /\ Cardinality({f \in {"IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED"} : Has(fs, f)}) = 1
  /\ ~ (Has(fs, "INCREASING") /\ Has(fs, "DECREASING"))

Base(fs) ==
  IF Has(fs, "IS_LINEAR") THEN "line"
  ELSE IF Has(fs, "IS_SEASONAL") THEN "season"
  ELSE IF Has(fs, "IS_MONOTONIC") THEN (IF Has(fs, "INCREASING") THEN "up" ELSE IF Has(fs, "DECREASING") THEN "down" ELSE "auto")
  ELSE IF Has(fs, "IS_CONTINUOUS") THEN "poly"
  ELSE IF Has(fs, "IS_ORDERED") THEN "neighbours"
  ELSE "prior"
Type(fs) ==
  IF Has(fs, "IS_LINEAR") THEN "extrapolating"
  ELSE IF Has(fs, "IS_SEASONAL") \/ Has(fs, "IS_CONTINUOUS") THEN "interpolating"
  ELSE "discontinuous"
N == Len(props)
GroupType ==
  LET ts == {Type(props[i]) : i \in 1..N}
  IN  IF "discontinuous" \in ts THEN "discontinuous" ELSE IF "interpolating" \in ts THEN "interpolating" ELSE "extrapolating"

\* raw: smoother; within: applied within groups of the first columns; type: where it is defined
Chosen ==
  LET last == props[N]
      R(t) == IF reg THEN t ELSE "all"
      one == IF "last" \in expl THEN "explicit1" ELSE Base(last)
      isExpl == "group" \in expl \/ (N = 1 /\ "last" \in expl)
  IN  CASE scheme = "none" -> [raw |-> "values", within |-> FALSE, type |-> R(GroupType)]
        [] scheme = "mean" /\ isExpl -> [raw |-> "explicit", within |-> FALSE, type |-> R(GroupType)]
        [] scheme = "mean" /\ ~isExpl /\ N > 1 -> [raw |-> "multiprior", within |-> FALSE, type |-> R(GroupType)]
        [] scheme = "mean" /\ ~isExpl /\ N = 1 -> [raw |-> one, within |-> FALSE, type |-> R(Type(last))]
        [] scheme = "group" /\ isExpl -> [raw |-> "explicit", within |-> FALSE, type |-> R(Type(last))]
        [] scheme = "group" /\ ~isExpl -> [raw |-> one, within |-> N > 1, type |-> R(Type(last))]

Init ==
  /\ \E n \in Pick(1..MaxCols) : props = [i \in 1..n |-> {}]
  /\ scheme \in Pick({"mean", "group", "none"})
  /\ expl \in Pick(SUBSET {"group", "last"})
  /\ reg \in Pick(BOOLEAN) /\ norm \in Pick(BOOLEAN)
  /\ added = "" /\ pc = "collect"
GiveFlag ==
  /\ pc = "collect"
  /\ \E i \in Pick(1..N) : \E f \in Pick(Flags) :
       /\ f \notin props[i]
       /\ props' = [props EXCEPT ![i] = @ \cup {f}]
       /\ added' = f
  /\ UNCHANGED <<scheme, expl, reg, norm, pc>>
Total == LET RECURSIVE C(_)
             C(i) == IF i = 0 THEN 0 ELSE Cardinality(props[i]) + C(i - 1)
         IN  C(N)
Choose == pc = "collect" /\ Total >= MinFlags /\ pc' = "done" /\ added' = "" /\ UNCHANGED <<props, scheme, expl, reg, norm>>
Next == (Total < MaxFlags /\ GiveFlag) \/ Choose
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoEffect == [][added' \in Neutral => Chosen' = Chosen]_vars
Defined == Chosen.type \in {"discontinuous", "interpolating", "extrapolating", "all"}
\* smoothers that cannot answer outside the bins are never asked to
MayExtrapolate == Chosen.type = "extrapolating" /\ N = 1 => Has(props[1], "IS_LINEAR")
\* every set of flags that passes the consistency test names its own smoother
Distinct == \A i \in 1..N : Consistent(props[i]) =>
  (Base(props[i]) = "prior" <=> /\ Has(props[i], "IS_UNORDERED") /\ ~Has(props[i], "IS_LINEAR") /\ ~Has(props[i], "IS_SEASONAL"))

Key == <<props, scheme, expl, reg, norm, pc>>
Emit == pc = "done" =>
  PrintT("@" \o ToJson([props |-> props, scheme |-> scheme, expl |-> expl, reg |-> reg, norm |-> norm, chosen |-> Chosen,
                        names |-> [i \in 1..N |-> Names(props[i])], consistent |-> [i \in 1..N |-> Consistent(props[i])]]))
=============================================================================
